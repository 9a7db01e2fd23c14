#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
IT = "aftermath-core/input_tree/src/"
CA = "aftermath-core/caret/src/"
PA = "aftermath-core/parser/src/"
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("E01", "Row edits change exactly the addressed stretch of the addressed row",
 "Applying an insertion to a formula tree puts exactly the edit's elements, in order, at the addressed place of the addressed row; applying a deletion removes exactly as many elements as the edit carries, starting at that place. Every other element of that row keeps its relative order and every other row is left alone, and an edit whose place and length fit the row never panics.",
 ["inputs"], "every formula tree, every row of it, every offset and every list of elements (including empty ones)",
 "the tests apply a handful of edits at fixed offsets of small trees; the guarantee is over every row length, offset and number of inserted or deleted elements, at every depth",
 [IT+"input_tree.rs", IT+"node.rs"],
 [("applying one edit to the tree: walk to the row, splice the element vector", IT+"input_tree.rs: Editable for InputTree"), ("mutable access to a child row of a container", IT+"node.rs: InputNode::row_mut")],
 state=[("root", "the formula: a row of elements whose containers own grids of rows", IT+"input_tree.rs: InputTree")],
 observe=["the public root row after applying the edit"])
prop("E02", "Grid edits insert or delete exactly whole rows/columns at the place given",
 "Inserting rows (columns) into a resizable table puts the edit's cells in as whole rows (columns) at the given index, and deleting removes exactly as many rows (columns) as the edit carries from that index. All other cells keep their content and their relative position, and the table's width and height change by exactly the edit's extent; a fitting edit never panics.",
 ["inputs"], "every table of at least one column and every row/column index and extent that fits it (a deletion leaves at least one column)",
 "no test applies a grid edit at all, and the result depends on the product of width, height, index and extent",
 [IT+"input_tree.rs", IT+"editing/basic_edit.rs", IT+"grid.rs"],
 [("grid branch of applying an edit", IT+"input_tree.rs: Editable for InputTree"), ("size after the edit", IT+"editing/basic_edit.rs: GridEdit::new_grid_size"), ("grid construction", IT+"grid.rs: GridVec::from_one_dimensional")],
 observe=["cells and size of the table after applying the edit"])
prop("E03", "The inverse of an edit undoes it",
 "The inverse of an edit addresses the same place with the same content and has the opposite type, so applying an edit and then its inverse gives back the original formula, and inverting twice gives back the original edit. A list of edits is applied from first to last, each exactly once.",
 ["inputs", "histories"], "every row edit and grid edit, and every list of edits",
 "the tests invert a few row edits on fixed trees; the law is over all edits including grid edits, which no test inverts",
 [IT+"editing/basic_edit.rs", IT+"editing/invertible.rs", IT+"editing/editable.rs"],
 [("inverse of edit kinds", IT+"editing/basic_edit.rs: Invertible impls"), ("list application", IT+"editing/editable.rs: Editable::apply_edits")],
 observe=["the edit value returned by inverting"])
prop("E04", "Edits built from a selection describe exactly that selection",
 "Building a removal from a range yields a deletion at the range's left end carrying exactly the elements in the range, building an insertion yields an insertion of the given elements at the position, and building a replacement yields that removal followed by that insertion at the same place. The position or range handed back with them is where the caret belongs afterwards: the left end after a removal, just behind the new elements after an insertion, and exactly around the new elements after a replacement.",
 ["inputs"], "every range (forwards, backwards or collapsed) in every row and every list of inserted elements",
 "tests only build edits for forward ranges of fixed rows; backwards and collapsed ranges and empty insertions are not covered",
 [IT+"editing/basic_edit.rs", IT+"focus/row_range.rs"],
 [("edit builders", IT+"editing/basic_edit.rs: BasicEdit::{remove_range,insert_at_position,replace_range}")],
 observe=["the edits and the position/range returned by the builders"])
prop("R01", "Stored positions and ranges follow their content through row edits",
 "After a row edit, a stored position or range still denotes the same place relative to the surviving content: it shifts by the edit's length when the edit lies to its left in the same row or in an ancestor row, it is untouched when the edit lies to its right or in an unrelated row, and it collapses to the edit's place when what it pointed into was deleted. An insertion exactly at its start leaves the start in place, one exactly at its end pulls the end behind the new elements, a position on its own stays in front of them, and backwards ranges stay backwards; nothing ever panics or points outside its row.",
 ["inputs", "histories"], "every position, range (forwards or backwards) and row edit, at any relative depth",
 "the tests rebase a few ranges in a single row; no test covers edits in an ancestor row, backwards ranges or deletions that swallow the position's container",
 [IT+"focus/row_range.rs", IT+"focus/row_position.rs", IT+"editing/basic_edit.rs", IT+"editing/row_indices_edit.rs"],
 [("rebasing a range", IT+"focus/row_range.rs: Editable for MinimalInputRowRange"), ("rebasing a position", IT+"focus/row_position.rs: Editable for MinimalInputRowPosition"), ("old/new offsets of an edit", IT+"editing/basic_edit.rs: RowEdit::get_row_indices_edit")],
 observe=["the stored position/range after applying the edit"])
prop("R02", "Table edits leave stored places outside the table alone",
 "Inserting or deleting rows or columns of a table leaves every stored position and range that does not lie inside that table exactly as it was, without failing: those in the table's own row, in other elements of it, in outer rows and elsewhere. The shift of cells a table edit announces is the one it makes: it names that table, whether rows or columns move, from where to where, and whether room is made.",
 ["inputs"], "every table edit and every position and range outside the table, at any depth",
 "no test applies a table edit to a stored position",
 [IT+"focus/row_range.rs", IT+"editing/basic_edit.rs", IT+"editing/row_indices_edit.rs"],
 [("rebasing", IT+"focus/row_range.rs"), ("announced shifts", IT+"editing/basic_edit.rs")],
 observe=["stored positions and ranges after table edits"])
prop("O01", "Comparing positions agrees with document order and is a total order",
 "Two positions compare as their places in the formula read from left to right: positions in the same row by offset, a position inside a container after every position of the outer row up to the container's left side and before every one from its right side on, and positions in different child rows by the first child element or child row in which they differ. The comparison is antisymmetric and transitive and says equal exactly for the same row and offset.",
 ["inputs"], "every pair (and triple) of positions of a tree, at any depth and distance",
 "the tests compare a few position pairs of one tree; totality and transitivity quantify over all pairs and triples",
 [IT+"row.rs", IT+"focus/row_position.rs"],
 [("comparison of row indices and offsets", IT+"row.rs: RowIndices::cmp_indices_and_offset"), ("ordering of positions", IT+"focus/row_position.rs: Ord/PartialOrd/PartialEq for InputRowPosition")],
 observe=["results of comparing positions"])
prop("S01", "Range and position accessors stay inside the row and agree with each other",
 "A position or range can only be created with offsets inside its row; its left end is the smaller and its right end the larger of its two offsets, its length is their difference, it is collapsed exactly when both are equal, its elements are exactly the elements between them, and it contains exactly the positions between them. Converting to the stored form and back keeps the row and the offsets.",
 ["inputs"], "every row, every pair of offsets in either order, every position",
 "tests read back a few ranges; both orders and both boundaries for all lengths are out of their reach",
 [IT+"focus/row_range.rs", IT+"focus/row_position.rs", IT+"row.rs"],
 [("range construction and accessors", IT+"focus/row_range.rs: InputRowRange"), ("position construction", IT+"focus/row_position.rs: InputRowPosition")],
 observe=["values returned by the range/position accessors"])
prop("S02", "A selection spanning two positions covers both of them",
 "The row range spanned by two positions lies in the innermost row that is an ancestor of both, keeps their order (forwards exactly when the first is not after the second), uses a position's own offset where the position lies in that row, and otherwise covers the whole container the position lies in. It never panics for two valid positions of the same tree.",
 ["inputs"], "every pair of positions of every formula tree, in both orders, at any depth",
 "tests cover a couple of selections; the quantifier is over both orders and all combinations of depths",
 [IT+"input_tree.rs", IT+"row.rs"],
 [("range from two positions", IT+"input_tree.rs: InputTree::range_from_positions"), ("shared prefix of row indices", IT+"row.rs: RowIndices::get_shared")],
 observe=["row and offsets of the resulting range"])
prop("F01", "Walking down and up the formula tree is consistent",
 "Stepping from a row to one of its elements and from an element to one of its child rows succeeds exactly when the index exists (otherwise it reports failure instead of panicking, and hands back the element unchanged), and the path recorded on the way is exactly the indices stepped through. Stepping back up returns the element and row one came from with their path restored, a row's index in its parent is the one it was reached by, and the root row has neither parent nor index in a parent.",
 ["inputs"], "every row/element of every tree and every (also invalid) index",
 "tests walk one or two fixed paths; invalid indices and the root are not covered",
 [IT+"focus.rs"],
 [("row and node focus navigation", IT+"focus.rs: InputFocusRow / InputFocusNode")],
 state=[("row_indices", "path of the focused row; handed down to the innermost focus and back on the way up", IT+"focus.rs: InputFocusRow")],
 observe=["paths, indices and rows returned by the navigation functions"])
prop("F02", "Finding the element next to an offset never leaves the row",
 "The element to the left of an offset is the one with the preceding index and does not exist at the start of the row; the element to the right is the one with the same index and does not exist at the end of the row. The result is always a valid element index for an offset inside the row. A horizontal or vertical direction turned into a general one is the same direction.",
 ["inputs"], "every row length, offset and direction",
 "caret movement tests only hit a few rows; the boundary cases quantify over all lengths",
 [IT+"row.rs", IT+"focus.rs"],
 [("offset to element index", IT+"row.rs: InputRow::offset_to_index")],
 observe=["result of the lookup"])
prop("G01", "Grid cells are addressed row by row, consistently, and never out of bounds",
 "The flat index and the column/row coordinates of a grid cell convert into each other without loss (row by row, left to right), a lookup, replacement or mutable access through coordinates succeeds exactly for coordinates inside the grid and reaches that cell, and replacing returns the old content. Moving coordinates by a step succeeds exactly when the target lies inside the grid and never wraps around an edge.",
 ["inputs"], "every grid size, flat index, coordinate pair and step",
 "no existing test addresses grids wider than two columns; the law is over all widths and heights and all out-of-range coordinates",
 [IT+"grid/index2d.rs", IT+"grid.rs"],
 [("2D index conversions and checked steps", IT+"grid/index2d.rs: Index2D"), ("cell access", IT+"grid.rs: GridVec::{get,get_mut,set,size}")],
 observe=["converted indices and cells returned"])
prop("G02", "Every grid is rectangular, whichever way it came into being",
 "Every grid that reaches the rest of the program has at least one column and a cell count that is a multiple of its width: construction rejects anything else, no public operation on a grid breaks it, and data read from outside (clipboard or file) is checked the same way. Fractions and roots have two child rows (stacked, respectively side by side) and scripts have one.",
 ["inputs"], "every list of cells and width given to a constructor, every operation on a grid, every serialized document",
 "tests construct a few well-formed grids; malformed input and the set of code locations able to write a grid's fields are not testable by samples",
 [IT+"grid.rs", IT+"node.rs"],
 [("checked constructor", IT+"grid.rs: GridVec::from_one_dimensional"), ("private fields written only by checked code; deserialisation", IT+"grid.rs: GridVec"), ("container constructors", IT+"node.rs: InputNode::{fraction,root,sup,sub,table}")],
 observe=["size of constructed grids; rejection of malformed ones"])
prop("G03", "A rectangular selection covers exactly the cells between its corners",
 "The rectangle between two cells of a grid, whichever of the two comes first, consists of exactly the cells whose column and row lie between those of the two cells: its first and last cell, its numbers of columns and rows and the cells found through a view of it agree with that, and it is never empty. Asking for a rectangle that reaches outside the grid is refused. A stored selection of cells names the element and the rectangle it was made from, and reading it back and storing it again changes nothing.",
 ["inputs"], "every grid, every two cells of it and every stored selection",
 "no test selects cells of a table",
 [IT+"grid/grid_view.rs", IT+"focus/grid_range.rs"],
 [("rectangle construction and size", IT+"grid/grid_view.rs"), ("grid selections", IT+"focus/grid_range.rs")],
 observe=["corners, sizes and cells of rectangles, views and grid selections"])
prop("P01", "Printing a formula escapes text and shows structure unambiguously",
 "In the printed form every symbol is written between double quotes with each double quote and backslash preceded by a backslash and every other character verbatim, in order. Every element of a row and every cell of a container is printed exactly once, in order, and every container prints its kind (distinct for each kind) and its width and height.",
 ["inputs"], "every formula tree and every symbol text",
 "tests print a few trees; escaping must hold for all texts and no element may be dropped for any size",
 [IT+"print_helpers.rs", IT+"row.rs", IT+"grid.rs", IT+"node.rs"],
 [("escaping writer", IT+"print_helpers.rs: write_with_escaped_double_quotes"), ("Display impls", IT+"row.rs, grid.rs, node.rs")],
 observe=["the text produced by formatting"])
prop("P02", "Printing a syntax tree shows its name, structure, text and value",
 "A syntax tree is printed as one bracketed expression: the full name of the node (its parts joined by two colons), then what it contains, then its value if it has one, separated by single spaces. Children are printed in order, each in the same form; a node with rows of its own prints its width, an x and its height in front of them, so that tables of different shape differ; a node with neither children nor rows prints nothing there. A leaf prints its symbols one after the other between double quotes, with each double quote and backslash preceded by a backslash and every other character verbatim. A value is printed byte by byte as two lowercase hexadecimal digits each. Nothing is dropped, repeated or reordered.",
 ["inputs"], "every syntax tree: any subtrees, any characters, any table shape, any value",
 "tests print a handful of trees, none of them with quotes in leaves, values with small bytes, or tables that are not square",
 ["aftermath-core/parser/src/syntax_tree/display_syntax_tree.rs", "aftermath-core/parser/src/syntax_tree/node_identifier.rs", IT+"print_helpers.rs"],
 [("printed form of a node", "aftermath-core/parser/src/syntax_tree/display_syntax_tree.rs: Display for SyntaxNodeWithDisplay, SyntaxLeafNode"), ("printed form of a name", "aftermath-core/parser/src/syntax_tree/node_identifier.rs: Display for PathIdentifier")],
 observe=["the text produced by formatting"])
prop("W01", "What is saved, copied or handed across is read back as the same value",
 "Every formula part, position, range, rectangle, selection and direction that crosses the clipboard or the web boundary reads back as a value equal to the one that was written, for every kind and every field. Elements that are copied can be pasted under the same kind of text, and come out equal to the copied ones in the same order.",
 ["inputs"], "every value of every type that crosses the clipboard or the web boundary",
 "no test serializes anything; a one-sided rename, skip or default only shows for the values that use that field",
 [IT+"row.rs", IT+"node.rs", IT+"grid.rs", IT+"grid/grid_view.rs", IT+"focus/row_position.rs", IT+"focus/row_range.rs", "aftermath-core/serialization/src/lib.rs"],
 [("derived or hand-written writer/reader pairs", IT+"*.rs: Serialize/Deserialize impls"), ("clipboard text", "aftermath-core/serialization/src/lib.rs: serialize_input_nodes, deserialize_input_nodes")],
 observe=["the value read back from what was written"])
prop("U01", "Undo and redo walk one linear history",
 "Recording an action makes it the next one to undo and forgets everything that could be redone; undoing hands out the inverse of the most recent recorded action and makes that action the next one to redo, and redoing hands it out again and makes it the next one to undo. With nothing to undo (redo) nothing changes; no action is lost, duplicated or reordered.",
 ["histories"], "every sequence of recording, undoing and redoing",
 "there is no test of the history at all, and the law is over every interleaving of the three operations",
 [CA+"undo_redo_manager.rs", CA+"primitive/caret_edit.rs"],
 [("two-stack history", CA+"undo_redo_manager.rs: UndoRedoManager"), ("inverse of a caret edit", CA+"primitive/caret_edit.rs: Invertible for CaretEdit")],
 observe=["actions handed out and both stacks after each operation"])
prop("U02", "The inverse of a recorded editor action reverses its edits and swaps its carets",
 "Inverting a recorded action yields the inverses of its edits in reverse order, with the caret before and the caret after exchanged. Undoing therefore restores both formula and caret, and inverting twice gives the action back.",
 ["histories", "inputs"], "every recorded action with any number of edits",
 "no test undoes an action consisting of several edits",
 [CA+"primitive/caret_edit.rs"],
 [("inverse of a caret edit", CA+"primitive/caret_edit.rs: Invertible for CaretEdit / UndoAction")],
 observe=["the inverted action"])
prop("U03", "Formula changes are recorded, invalidate the parse and keep the caret current",
 "Whenever the editor changes the formula it also drops the cached parse result, and the change is recorded in the undo history together with the caret before and after (unless it is itself an undo or redo). After the operation the caret is the one belonging to the changed formula, never one remembered from before the change.",
 ["histories"], "every editor operation and every path through it that changes the formula",
 "caret tests exercise two operations; a missed invalidation or a stale caret only shows in later operations of particular histories",
 [CA+"editor_action_builder.rs", CA+"math_editor.rs"],
 [("single place that applies edits, records and sets the caret", CA+"editor_action_builder.rs: EditorActionBuilder::finish"), ("undo/redo application", CA+"math_editor.rs: MathEditor::apply_action"), ("replacement at a range", CA+"math_editor.rs: MathEditor::splice_at_range")],
 state=[("parsed", "cached syntax tree of the current formula", CA+"math_editor.rs: MathEditor"), ("caret", "stored caret", CA+"math_editor.rs: MathEditor"), ("undo_stack", "history", CA+"math_editor.rs: MathEditor")],
 observe=["fields of the editor at the end of each operation"])
prop("M01", "Moving the caret goes to the adjacent place and never panics",
 "Moving left or right passes over exactly one symbol (or a table without cells), enters an adjacent container at the near end of its nearest child row, and at the edge of a row goes to the near end of the neighbouring child row or out of the container on the side moved to; at the edge of the whole formula it does not move. Moving up goes to the end of the child row above in the innermost enclosing grid that has one, moving down to the start of the one below; moving up from a superscript or down from a subscript leaves it to the place in front of it. A selection is first collapsed to the side moved to, which is also where the caret ends up when there is no place to go. The new caret is always inside a row, and no valid caret makes a move panic.",
 ["inputs"], "every formula and caret position and every direction",
 "the few caret tests check selections; edges of rows, grids and the formula at all depths are not covered",
 [CA+"primitive/movement.rs", IT+"focus.rs"],
 [("caret movement", CA+"primitive/movement.rs: NavigationSettings")],
 observe=["the position returned for a movement"])
prop("M02", "Deleting at the caret removes the adjacent element or unwraps it, nothing else",
 "With a selection, deleting removes exactly the selection. With a collapsed caret next to a symbol it removes exactly that symbol, next to or at the start of a script it replaces the script by its content, between the two rows of a fraction or root it replaces that by both contents in order, and an empty container is removed from its edge; otherwise only the caret moves and nothing is deleted.",
 ["inputs"], "every formula, caret and delete direction",
 "there is no test of deletion at the caret",
 [CA+"primitive/primitive_edit.rs"],
 [("deletion at the caret", CA+"primitive/primitive_edit.rs: remove_at_caret")],
 observe=["edits and caret position produced"])
prop("M03", "What the editor reports and copies as selected is what lies between the caret's two ends",
 "With both ends in one row, the reported selection is the stretch of that row between them. With the ends in different cells of the same table, it is the smallest rectangle of cells of that table containing both. Otherwise it is the shortest stretch of the innermost row containing both ends that covers each container an end lies in as a whole. Asking for it never fails. Copying a selection that is not a rectangle of cells hands out exactly the elements in it, in order.",
 ["inputs"], "every formula, every two places in it, in either order",
 "no test asks an editor for its selection or copies anything",
 [CA+"caret.rs", CA+"math_editor.rs"],
 [("selection between two places", CA+"caret.rs: CaretSelection::from_positions"), ("reported selection, copying", CA+"math_editor.rs: MathEditor::{get_caret,copy}")],
 observe=["the reported selection; the elements handed to the clipboard"])
prop("A01", "A completion is found exactly when its beginning is spelled in front of the caret",
 "For every rule text, every row and every place in it: the rule is found for a number of elements directly in front of the place exactly if those are symbols whose texts, put together, are the beginning of the rule, and there are at least as many as asked for. Each is found once, with the number of elements and the length of the spelled beginning reported, and counts as complete exactly if that is the whole rule. Looking for completions never fails, whatever the symbols consist of.",
 ["inputs"], "every rule text and every typed text, in any alphabet",
 "tests match a few ASCII rules; symbols are grapheme clusters and may be several bytes long",
 [PA+"autocomplete.rs"], [("suffix matcher", PA+"autocomplete.rs: AutocompleteMatcher for AutocompleteRule, indices_of")],
 observe=["the list of matches"])
prop("A02", "Completions are offered, accepted and applied where they were typed",
 "With a collapsed caret, the completions found for the elements in front of it are offered, all of them, the least spelled first, at the caret's place; the one chosen before stays chosen while it is offered, otherwise the first one is, and the choice is remembered. Moving up or down chooses the one before or after it, stopping at the ends of the list. Accepting replaces exactly the elements that spell it by the rule's result and leaves the caret at an end of that; closing changes nothing. A completely spelled completion is applied by itself exactly if the caret leaves it while it is still spelled, and then replaces exactly these elements, wherever in the row they are.",
 ["inputs", "histories"], "every formula, caret, list of completions and place the caret goes to",
 "no test drives completions in an editor",
 [CA+"autocomplete.rs", CA+"math_editor.rs"],
 [("offered completions", CA+"math_editor.rs: MathEditor::get_autocomplete, AutocompleteState"), ("accepting and applying", CA+"math_editor.rs: MathEditor::{finish_autocomplete,apply_autocorrect}"), ("range of a completion", CA+"autocomplete.rs: AutocompleteResults")],
 observe=["offered list and choice; formula and caret afterwards"])
prop("X01", "Every kind of container can be parsed and every error kind has a name",
 "For every kind of container element the always-present rule set contains a rule parsing exactly that kind, so a container never reaches the handler for unknown tokens, which accepts only symbols. Every name the always-present rule set gives to a syntax node is registered.",
 ["inputs", "programs"], "every container kind and every always-present rule",
 "tests parse fractions, roots, scripts and tables in samples; a new or dropped kind would only show in an untested formula by a panic",
 [PA+"rule_collections/built_in_rules.rs", IT+"node.rs", PA+"math_parser.rs"],
 [("rule table of the built-in module", PA+"rule_collections/built_in_rules.rs: BuiltInRules::make_rules"), ("unknown token handler", PA+"rule_collections/built_in_rules.rs: BuiltInRules::error_unknown_token")],
 observe=["rule table; handlers reachable for containers"])
prop("X02", "Operators of equal strength nest to the side their kind says",
 "A left-associative operator binds its right operand more tightly than its own left side and a right-associative one the other way round; prefix operators take no left operand and postfix operators no right operand at their strength, and the comparison used while parsing orders strengths first by number and then weak before strong. Rules are tried in the order prefix, atom, infix, postfix where an operand is expected and infix, postfix, prefix, atom after one; between two operands an operator of fixed strength is assumed. So chains of an operator nest left respectively right, and a stronger operator always binds before a weaker one.",
 ["inputs"], "every operator kind and every pair of strengths",
 "parser tests use a few operators with fixed strengths; the law is over all pairs of strengths and kinds",
 [PA+"parser/pratt_parser.rs"],
 [("binding powers", PA+"parser/pratt_parser.rs: BindingPower, Strength"), ("operator loop", PA+"parser/pratt_parser.rs: PrattParser::pratt_parse")],
 observe=["binding powers compared in the operator loop"])
prop("X03", "Syntax nodes cover their children without gaps",
 "A syntax node cannot be built unless its children on the same row are contiguous and lie inside its own range; its range never changes afterwards.",
 ["inputs"], "every syntax node built by any rule for any input",
 "parser tests only build the trees of the sampled formulas",
 [PA+"syntax_tree/syntax_node.rs", PA+"syntax_tree/syntax_node_builder.rs"],
 [("checked constructor and private range", PA+"syntax_tree/syntax_node.rs: SyntaxNode::new")],
 observe=["construction of syntax nodes"])
prop("X04", "Names of syntax nodes map to ids one to one",
 "Registering a name returns its existing id if it has one and a fresh id otherwise; looking a name up by id and an id up by name are inverse to each other, and an id is never reused for a different name.",
 ["histories", "inputs"], "every sequence of registrations",
 "no test registers colliding or repeated names",
 [PA+"syntax_tree/node_type_id.rs"],
 [("two synchronized maps", PA+"syntax_tree/node_type_id.rs: SyntaxNodeNameMap")],
 observe=["ids handed out and both maps"])
prop("X05", "The operator loop keeps every token in its place",
 "Whatever rules accept the tokens of a row and however strongly they bind, the leaves of the tree built by the operator loop are exactly the tokens in front of the ending token, in order and each exactly once; what is missing is filled in with empty nodes, and no combination of roles makes the loop panic.",
 ["inputs", "configurations"], "every row of tokens, every assignment of roles and strengths",
 "parser tests use the standard rules on correct formulas; most error recovery paths are never compared with anything",
 [PA+"parser/pratt_parser.rs"],
 [("operator loop and its error recovery", PA+"parser/pratt_parser.rs: PrattParser::pratt_parse, parse_unknown")],
 observe=["leaves of the tree of every row"])
prop("X06", "Formulas mean what mathematical conventions say",
 "With the standard rules, multiplication and division bind before addition and subtraction and these before comparisons; operators of one level nest to the left; signs bind before infix operators but after factorials, calls and scripts; factorial, script and call belong to the operand directly in front; brackets override all of it; a run of letters is one variable and a run of digits, possibly with one decimal point, is one number; sums, integrals, limits and negation apply to what follows them. Spaces between tokens change none of it.",
 ["inputs"], "every pair of operators, every operand",
 "parser tests check about ten formulas; strengths are bare numbers spread over eight files and every pair of them matters",
 [PA+"rule_collections/arithmetic_rules.rs", PA+"rule_collections/comparison_rules.rs", PA+"rule_collections/function_rules.rs", PA+"rule_collections/core_rules.rs", PA+"rule_collections/calculus_rules.rs", PA+"rule_collections/logic_rules.rs", PA+"math_parser.rs"],
 [("strengths and parsers of the rules", PA+"rule_collections/*.rs"), ("spaces and scripts after operators", PA+"math_parser.rs: CachedMathParser")],
 observe=["syntax trees of formulas with arbitrary operands"])
prop("X07", "Parsing any row gives a tree with exactly its tokens",
 "With the standard rules parsing never panics: for every row the result is a tree that covers the row from its first to its last token without gaps, whose leaves spell exactly the row's symbols in order and in which every container appears with all of its rows, each covered in the same way.",
 ["inputs"], "every row of symbols and containers",
 "tests parse correct formulas; the four error tests print their result and compare nothing",
 [PA+"math_parser.rs", PA+"parser.rs", PA+"rule_collections/", PA+"make_parser.rs", PA+"parser_extensions.rs", PA+"parser/pratt_parser.rs"],
 [("rule combinators", PA+"math_parser.rs, make_parser.rs"), ("errors turned into panics", PA+"parser.rs: MathParser::parse; "+PA+"rule_collections/built_in_rules.rs: make_container_parser, error_unknown_token")],
 observe=["syntax trees of arbitrary rows"])
prop("V01", "Every syntax node the parser can produce has a renderer in the front end",
 "For each name the parser's rule sets register there is a renderer registered under exactly that name in the web front end, and the front end registers no renderer for a name that does not exist; loading the editor therefore never fails on an unknown node.",
 ["programs", "configurations"], "every rule set of the parser and every renderer registration of the front end",
 "no test loads both sides; they are in different languages and joined only by strings at run time",
 ["src/mathml/renderer.ts", PA+"rule_collections/"],
 [("renderer registrations", "src/mathml/renderer.ts"), ("rule names", PA+"rule_collections/*.rs")],
 observe=["name tables of both sides"])
prop("V02", "The front end and the core agree on what crosses between them",
 "Every direction, movement mode, deletion mode and data type the web front end passes to the core is a variant of the corresponding core type, spelled exactly as the core reads it; every core module, class and method the front end uses exists in the core's bindings with the arguments given there; everything the front end reads from a value the core returns is a field that value has, under the name and of the type the core writes; and the front end asks only for options the core implements.",
 ["programs"], "every use of the core's interface in the front end and every value that crosses it",
 "no test runs the front end against the core",
 ["src/component/math-editor.ts", "src/core/index.ts", "src/core/", "aftermath-core/web/src/math_editor.rs", "aftermath-core/web/src/math_parser.rs", "aftermath-core/serialization/src/lib.rs"],
 [("calls into the bindings", "src/component/*.ts, src/core/*.ts"), ("bindings", "aftermath-core/web/src/*.rs")],
 observe=["type errors of the front end against the interface derived from the core's sources", "options reaching unimplemented branches"])
prop("V03", "Rendering shows every part of the formula exactly once",
 "Rendering a syntax tree never fails, and what is shown follows the tree: rendering the same node again gives the same elements, every symbol of the row and every row of every container appears exactly once and in order, what is rendered for a node carries that node and its row index, and fractions, roots, scripts and tables get the MathML layout element of their kind with their parts in the right places.",
 ["inputs"], "every syntax tree the parser produces, of any size",
 "the front end has no tests of its renderers",
 ["src/mathml/renderer.ts", "src/mathml/renderer/", "src/rendering/render-result.ts"],
 [("assertions in renderers", "src/mathml/renderer/*.ts"), ("tree of rendered elements", "src/mathml/renderer/*.ts")],
 observe=["MathML elements and render results of arbitrary syntax trees"])
prop("V04", "Positions in the formula and places on the screen correspond",
 "In a rendered formula every row can be found by its path and only by it, every caret position of every row has a place on the screen that, when symbols are drawn from left to right, lies between the symbols before and after it, every selection within a row spans exactly from its start to its end and is as high as what it selects, and pointing anywhere yields an existing row with a caret offset inside it, next to the symbol pointed at and never farther from the point than another caret position.",
 ["inputs", "configurations"], "every formula, caret, selection, pointer position and arrangement of the elements on the screen",
 "there is no test of rendered layout",
 ["src/mathml/render-result.ts", "src/mathml/renderer/", "src/input-tree/row-indices.ts", "src/core/index.ts"],
 [("hit testing and selections", "src/mathml/render-result.ts"), ("caret places", "src/mathml/renderer/*.ts"), ("row indices of nested rows", "src/input-tree/row-indices.ts, src/core/index.ts")],
 observe=["row indices, caret offsets and viewport values returned by the render results"])
prop("V05", "Importing MathML never crashes and keeps the text",
 "For every MathML element, however malformed, the import returns an input row together with a list of reported problems instead of throwing; the row holds the symbols of the element's text in order, one per grapheme, and for fractions, roots, scripts and tables a container of that kind with its parts in the core's order; every imported table is rectangular with at least one cell.",
 ["inputs"], "every tree of MathML elements",
 "there are no tests of the import",
 ["src/mathml/parsing.ts", "src/utils/pattern-matching-utils.ts"],
 [("element conversion", "src/mathml/parsing.ts: fromElement")],
 observe=["imported rows and reported errors"])
prop("V06", "Every gesture reaches the core once and the screen shows the core's latest state",
 "Each gesture asks the core for exactly the operation it stands for, once and in order: an arrow key without modifiers moves the caret that way by one place, Ctrl+Z undoes and Ctrl+Y redoes, deleting backward or forward removes to the left or right of the caret, typed text is inserted as its graphemes, copying puts the core's serialised selection on the clipboard as application/json, cutting does so before removing the selection, pasting hands the clipboard's formula (or else its text) to the core; pressing the primary pointer on the formula starts a selection at the place pointed at and focuses the input, moving while it is held extends the selection, releasing or cancelling it extends and finishes the selection, a second or third click selects the word or line; setting the mathml attribute replaces the whole formula by the imported one. Other keys, inputs, pointers and pointer events without the primary pointer having been pressed on the formula ask the core for nothing. After every gesture, in particular after several formula changes in quick succession, the screen shows the core's current formula and, for an editor on a page, one caret at the moving end of each of the core's current selections, and a highlight exactly over what is selected in it, with a grid selection covering its cells.",
 ["inputs", "histories"], "every key, kind of input, clipboard content and sequence of gestures; every caret and selection",
 "there are no tests of the editor element",
 ["src/component/math-editor.ts", "src/component/caret/single-caret-element.ts", "src/core/index.ts"],
 [("event handlers", "src/component/math-editor.ts: addInputEventListeners, addPointerEventListeners"), ("redrawing", "src/component/math-editor.ts: updateInput, renderCarets"), ("carets on screen", "src/component/caret/single-caret-element.ts")],
 observe=["operations the editor bindings are asked for", "text, carets and highlights in the element's shadow tree"])
# --- properties outside the reach of static analysis here (listed under not_applicable) ---
prop("N01", "Parsing never fails and never loses a token",
 "For every formula the parser terminates without panicking and yields a tree whose leaves, read in order, are exactly the formula's tokens.",
 ["inputs"], "every formula and every choice of rule sets",
 "parser tests check a few dozen formulas",
 [PA+"math_parser.rs", PA+"parser/pratt_parser.rs"],
 [("pratt parser with error recovery", PA+"parser/pratt_parser.rs"), ("rule combinators", PA+"math_parser.rs")])
prop("N02", "Clicking places the caret at the nearest position on screen",
 "The position the front end reports for a point on screen is the caret position of the whole formula whose rendered location is nearest to that point.",
 ["inputs"], "every formula, layout and point", "there is no test of the rendered layout",
 ["src/mathml/renderer.ts", "src/component/caret/"], [("hit testing", "src/mathml/")])
prop("N05", "Stored positions and ranges follow their content through grid edits",
 "After rows or columns of a table are inserted or deleted, stored positions and ranges inside the table still denote the same place relative to the surviving cells.",
 ["inputs"], "every position, range and grid edit", "no test applies a grid edit",
 [IT+"focus/row_range.rs", IT+"focus/grid_range.rs"], [("rebasing (unimplemented for grid edits)", IT+"focus/row_range.rs, grid_range.rs")])
for d in P: print(json.dumps(d))
