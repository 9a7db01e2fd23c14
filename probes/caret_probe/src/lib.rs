//! Roots for the analysis: one non-generic function per public entry point of `caret` a property speaks
//! about.  Nothing here is ever executed.
#![allow(clippy::all)]
#![feature(allocator_api, try_trait_v2)]
pub mod models;
use caret::{
    caret::*,
    editor_action_builder::EditorActionBuilder,
    math_editor::*,
    primitive::{primitive_edit::*, *},
    undo_redo_manager::UndoRedoManager,
};
use input_tree::{direction::*, editing::editable::Editable, editing::invertible::Invertible, editing::*, focus::*, grid::*, input_tree::InputTree, node::*, row::*};

use parser::autocomplete::AutocompleteMatcher;
use std::cmp::Ordering;

type M = UndoRedoManager<UndoAction>;

// ---- undo and redo -----------------------------------------------------------------------------
pub fn manager_new() -> M {
    M::new()
}
pub fn manager_default() -> M {
    M::default()
}
pub fn manager_push(m: &mut M, a: UndoAction) {
    m.push(a)
}
pub fn manager_undo(m: &mut M) -> Option<UndoAction> {
    m.undo()
}
pub fn manager_redo(m: &mut M) -> Option<UndoAction> {
    m.redo()
}
pub fn manager_can_undo(m: &M) -> bool {
    m.can_undo()
}
pub fn manager_can_redo(m: &M) -> bool {
    m.can_redo()
}
pub fn undo_action_inverse(a: &UndoAction) -> UndoAction {
    a.inverse()
}
pub fn caret_edit_inverse(a: &CaretEdit) -> CaretEdit {
    a.inverse()
}
pub fn caret_edit_into_action(a: CaretEdit) -> UndoAction {
    a.into()
}
pub fn caret_edit_is_empty(a: &CaretEdit) -> bool {
    a.is_empty()
}
// ---- movement ----------------------------------------------------------------------------------
pub fn move_caret_range<'a>(n: &NavigationSettings, r: InputRowRange<'a>, d: Direction, m: MoveMode) -> Option<InputRowPosition<'a>> {
    n.move_caret_range(r, d, m)
}
pub fn move_caret(n: &NavigationSettings, c: &mut Caret<'_>, d: Direction, m: MoveMode) {
    n.move_caret(c, d, m)
}
pub fn do_remove_at_caret(n: &NavigationSettings, r: &InputRowRange<'_>, m: CaretRemoveMode) -> Option<(Vec<BasicEdit>, MinimalInputRowPosition)> {
    remove_at_caret(n, r, m)
}
pub fn do_insert_at_range(r: &InputRowRange<'_>, v: Vec<InputNode>) -> Option<(Vec<BasicEdit>, MinimalInputRowPosition)> {
    insert_at_range(r, v)
}
// ---- carets ------------------------------------------------------------------------------------
pub fn caret_new<'a>(t: &'a InputTree, s: InputRowPosition<'a>, e: InputRowPosition<'a>) -> Caret<'a> {
    Caret::new(t, s, e)
}
pub fn caret_from_minimal<'a>(t: &'a InputTree, m: &MinimalCaret) -> Caret<'a> {
    Caret::from_minimal(t, m)
}
pub fn caret_to_minimal(c: &Caret<'_>) -> MinimalCaret {
    c.to_minimal()
}
// ---- the editor --------------------------------------------------------------------------------
pub fn editor_move_caret(e: &mut MathEditor, d: Direction, m: MoveMode) {
    e.move_caret(d, m)
}
pub fn editor_select_with_caret(e: &mut MathEditor, d: Direction, m: MoveMode) -> Option<()> {
    e.select_with_caret(d, m)
}
pub fn editor_remove_at_caret(e: &mut MathEditor, r: CaretRemoveMode, m: MoveMode) -> Option<()> {
    e.remove_at_caret(r, m)
}
pub fn editor_insert_at_caret(e: &mut MathEditor, v: Vec<String>) {
    e.insert_at_caret(v)
}
pub fn editor_select_all(e: &mut MathEditor) {
    e.select_all()
}
pub fn editor_undo(e: &mut MathEditor) -> Option<()> {
    e.undo()
}
pub fn editor_redo(e: &mut MathEditor) -> Option<()> {
    e.redo()
}
pub fn editor_start_selection(e: &mut MathEditor, p: MinimalInputRowPosition, m: MoveMode) {
    e.start_selection(p, m)
}
pub fn editor_extend_selection(e: &mut MathEditor, p: MinimalInputRowPosition) {
    e.extend_selection(p)
}
pub fn editor_finish_selection(e: &mut MathEditor) {
    e.finish_selection()
}
pub fn editor_finish_autocomplete(e: &mut MathEditor, a: bool) -> Option<()> {
    e.finish_autocomplete(a)
}
pub fn editor_splice_at_range(e: &mut MathEditor, r: MinimalInputRowRange, v: Vec<InputNode>) {
    e.splice_at_range(r, v)
}
pub fn editor_paste(e: &mut MathEditor, d: String, t: Option<SerializedDataType>) -> bool {
    e.paste(d, t).is_ok()
}
pub fn builder_new(e: &mut MathEditor) -> EditorActionBuilder<'_> {
    EditorActionBuilder::new(e)
}
pub fn builder_finish(b: EditorActionBuilder<'_>, c: MinimalCaret) -> CaretEdit {
    b.finish(c)
}
pub fn builder_add_edits(b: &mut EditorActionBuilder<'_>, v: Vec<BasicEdit>) {
    b.add_edits(v)
}
pub fn builder_add_edit(b: &mut EditorActionBuilder<'_>, v: BasicEdit) {
    b.add_edit(v)
}
pub fn builder_discard(b: EditorActionBuilder<'_>) {
    b.discard()
}
pub fn editor_get_caret(e: &MathEditor) -> Vec<MinimalCaretSelection> {
    e.get_caret()
}
pub fn editor_get_syntax_tree(e: &mut MathEditor) -> &parser::syntax_tree::SyntaxNode {
    e.get_syntax_tree()
}
pub fn editor_move_in_autocomplete(e: &mut MathEditor, d: VerticalDirection) -> Option<()> {
    e.move_in_autocomplete(d)
}
pub fn editor_open_autocomplete(e: &mut MathEditor) -> Option<()> {
    e.open_autocomplete()
}
pub fn parser_matches<'b>(p: &'b parser::parser::MathParser, i: &[InputNode], c: usize, n: usize) -> Vec<parser::autocomplete::AutocompleteRuleMatch<'b>> {
    p.matches(i, c, n)
}
pub fn parser_parse(p: &parser::parser::MathParser, i: &[InputNode]) -> parser::syntax_tree::SyntaxNode {
    p.parse(i)
}
pub fn rule_matches<'b>(p: &'b parser::autocomplete::AutocompleteRule, i: &[InputNode], c: usize, n: usize) -> Vec<parser::autocomplete::AutocompleteRuleMatch<'b>> {
    p.matches(i, c, n)
}
pub fn deserialize(d: String, t: Option<SerializedDataType>) -> Result<Vec<InputNode>, serialization::SerializationError> {
    serialization::deserialize_input_nodes(d, t)
}
// ---- helpers of the specifications ---------------------------------------------------------------
pub fn tree_apply_edits(t: &mut InputTree, e: &[BasicEdit]) {
    t.apply_edits(e)
}
pub fn tree_apply_edit(t: &mut InputTree, e: &BasicEdit) {
    t.apply_edit(e)
}
pub fn position_apply_edits(p: &mut MinimalInputRowPosition, e: &[BasicEdit]) {
    p.apply_edits(e)
}
pub fn replace_range(r: &InputRowRange<'_>, v: Vec<InputNode>) -> (Vec<BasicEdit>, MinimalInputRowRange) {
    BasicEdit::replace_range(r, v)
}
pub fn edit_inverse(e: &BasicEdit) -> BasicEdit {
    e.inverse()
}
pub fn grid_from_one(v: Vec<InputRow>, w: usize) -> GridVec<InputRow> {
    GridVec::from_one_dimensional(v, w)
}
pub fn node_dup(n: &InputNode) -> InputNode {
    n.clone()
}
// ---- reading places (decided by F01, S01) ----
pub fn focus_from_root(r: &InputRow) -> InputFocusRow<'_> {
    InputFocusRow::from_root(r)
}
pub fn tree_root_focus(t: &InputTree) -> InputFocusRow<'_> {
    t.root_focus()
}
pub fn focus_row_row<'a>(f: &InputFocusRow<'a>) -> &'a InputRow {
    f.row()
}
pub fn focus_row_indices<'a>(f: &'a InputFocusRow<'_>) -> &'a RowIndices {
    f.row_indices()
}
pub fn focus_row_child_at(f: InputFocusRow<'_>, i: usize) -> Option<InputFocusNode<'_>> {
    f.child_at(i)
}
pub fn focus_row_node_at<'a>(f: &InputFocusRow<'a>, i: usize) -> Option<&'a InputNode> {
    f.node_at(i)
}
pub fn focus_row_parent(f: InputFocusRow<'_>) -> Option<InputFocusNode<'_>> {
    f.parent()
}
pub fn focus_row_index_in_parent(f: &InputFocusRow<'_>) -> Option<usize> {
    f.index_in_parent()
}
pub fn focus_row_len(f: &InputFocusRow<'_>) -> usize {
    f.len()
}
pub fn focus_node_node<'a>(f: &InputFocusNode<'a>) -> &'a InputNode {
    f.node()
}
pub fn focus_node_child_at<'a>(f: InputFocusNode<'a>, i: usize) -> Result<InputFocusRow<'a>, InputFocusNode<'a>> {
    f.child_at(i)
}
pub fn focus_node_parent(f: InputFocusNode<'_>) -> InputFocusRow<'_> {
    f.parent()
}
pub fn focus_node_index_in_parent(f: &InputFocusNode<'_>) -> usize {
    f.index_in_parent()
}
pub fn focus_node_element_indices(f: &InputFocusNode<'_>) -> ElementIndices {
    f.element_indices()
}
pub fn focus_walk_down<'a>(f: InputFocusRow<'a>, i: &RowIndices) -> InputFocusRow<'a> {
    f.walk_down_indices(i)
}
pub fn focus_row_row_at(f: InputFocusRow<'_>, i: RowIndex) -> Option<InputFocusRow<'_>> {
    f.row_at(i)
}
pub fn indices_len(a: &RowIndices) -> usize {
    a.len()
}
pub fn position_to_minimal(p: &InputRowPosition<'_>) -> MinimalInputRowPosition {
    p.to_minimal()
}
pub fn range_to_minimal(r: &InputRowRange<'_>) -> MinimalInputRowRange {
    r.to_minimal()
}
pub fn range_from_positions<'a>(
    t: &'a InputTree,
    a: &InputRowPosition<'a>,
    b: &InputRowPosition<'a>,
) -> InputRowRange<'a> {
    t.range_from_positions(a, b)
}
pub fn remove_range(r: &InputRowRange<'_>) -> (Vec<BasicEdit>, MinimalInputRowPosition) {
    BasicEdit::remove_range(r)
}
pub fn insert_at_position(p: &InputRowPosition<'_>, v: Vec<InputNode>) -> (Vec<BasicEdit>, MinimalInputRowPosition) {
    BasicEdit::insert_at_position(p, v)
}
pub fn range_from_position<'a>(p: &InputRowPosition<'a>) -> InputRowRange<'a> {
    p.into()
}
pub fn position_from_minimal<'a>(f: InputFocusRow<'a>, m: &MinimalInputRowPosition) -> InputRowPosition<'a> {
    InputRowPosition::from_minimal(f, m)
}
pub fn range_from_minimal<'a>(f: InputFocusRow<'a>, m: &MinimalInputRowRange) -> InputRowRange<'a> {
    InputRowRange::from_minimal(f, m)
}
pub fn range_start_position<'a>(r: &InputRowRange<'a>) -> InputRowPosition<'a> {
    r.start_position()
}
pub fn range_end_position<'a>(r: &InputRowRange<'a>) -> InputRowPosition<'a> {
    r.end_position()
}
pub fn position_apply_edit(p: &mut MinimalInputRowPosition, e: &BasicEdit) {
    p.apply_edit(e)
}
pub fn range_apply_edit(p: &mut MinimalInputRowRange, e: &BasicEdit) {
    p.apply_edit(e)
}
pub fn range_apply_edits(p: &mut MinimalInputRowRange, e: &[BasicEdit]) {
    p.apply_edits(e)
}
pub fn cmp_indices_and_offset(a: &RowIndices, ao: &Offset, b: &RowIndices, bo: &Offset) -> Ordering {
    RowIndices::cmp_indices_and_offset(a, ao, b, bo)
}
pub fn position_new(f: InputFocusRow<'_>, o: Offset) -> InputRowPosition<'_> {
    InputRowPosition::new(f, o)
}
pub fn range_new(f: InputFocusRow<'_>, s: Offset, e: Offset) -> InputRowRange<'_> {
    InputRowRange::new(f, s, e)
}
// ---- comparisons the library calls ----
pub fn row_index_cmp(a: &RowIndex, b: &RowIndex) -> Ordering {
    a.cmp(b)
}
pub fn row_index_partial_cmp(a: &RowIndex, b: &RowIndex) -> Option<Ordering> {
    a.partial_cmp(b)
}
pub fn row_index_eq(a: &RowIndex, b: &RowIndex) -> bool {
    a == b
}
pub fn node_eq(a: &InputNode, b: &InputNode) -> bool {
    a == b
}
pub fn row_eq(a: &InputRow, b: &InputRow) -> bool {
    a == b
}
// ---- reading and writing data --------------------------------------------------------------------
pub fn round_node(v: &InputNode) -> Option<InputNode> {
    wire::round(v)
}
pub fn round_row(v: &InputRow) -> Option<InputRow> {
    wire::round(v)
}
pub fn round_variant(v: &InputNodeVariant) -> Option<InputNodeVariant> {
    wire::round(v)
}
pub fn round_row_indices(v: &RowIndices) -> Option<RowIndices> {
    wire::round(v)
}
pub fn round_row_index(v: &RowIndex) -> Option<RowIndex> {
    wire::round(v)
}
pub fn round_offset(v: &Offset) -> Option<Offset> {
    wire::round(v)
}
pub fn round_element_indices(v: &ElementIndices) -> Option<ElementIndices> {
    wire::round(v)
}
pub fn round_position(v: &MinimalInputRowPosition) -> Option<MinimalInputRowPosition> {
    wire::round(v)
}
pub fn round_range(v: &MinimalInputRowRange) -> Option<MinimalInputRowRange> {
    wire::round(v)
}
pub fn round_grid_range(v: &MinimalInputGridRange) -> Option<MinimalInputGridRange> {
    wire::round(v)
}
pub fn round_rectangle(v: &GridRectangle) -> Option<GridRectangle> {
    wire::round(v)
}
pub fn round_index2d(v: &Index2D) -> Option<Index2D> {
    wire::round(v)
}
pub fn round_direction(v: &Direction) -> Option<Direction> {
    wire::round(v)
}
pub fn round_horizontal(v: &HorizontalDirection) -> Option<HorizontalDirection> {
    wire::round(v)
}
pub fn round_vertical(v: &VerticalDirection) -> Option<VerticalDirection> {
    wire::round(v)
}
pub fn round_nodes(v: &Vec<InputNode>) -> Option<Vec<InputNode>> {
    wire::round(v)
}
pub fn round_selection(v: &MinimalCaretSelection) -> Option<MinimalCaretSelection> {
    wire::round(v)
}
pub fn round_data_type(v: &serialization::SerializedDataType) -> Option<serialization::SerializedDataType> {
    wire::round(v)
}
pub fn round_move_mode(v: &MoveMode) -> Option<MoveMode> {
    wire::round(v)
}
pub fn round_clipboard(v: &[InputNode], kind: serialization::SerializedDataType, again: Option<serialization::SerializedDataType>) -> Option<Vec<InputNode>> {
    match serialization::serialize_input_nodes(v, kind) {
        Ok(s) => serialization::deserialize_input_nodes(s, again).ok(),
        Err(_) => None,
    }
}
pub fn wire_encode(v: wire::Value) -> String {
    serde_json::encode(v)
}
pub fn wire_decode(s: &str) -> Option<wire::Value> {
    serde_json::decode(s)
}

pub fn editor_copy(e: &MathEditor, t: serialization::SerializedDataType) -> Result<String, serialization::SerializationError> {
    e.copy(t)
}
pub fn serialize(v: &[InputNode], t: serialization::SerializedDataType) -> Result<String, serialization::SerializationError> {
    serialization::serialize_input_nodes(v, t)
}
pub fn corner_first(r: &GridRectangle) -> (usize, usize) {
    let i = r.start_index();
    (i.x, i.y)
}
pub fn corner_last(r: &GridRectangle) -> Option<(usize, usize)> {
    r.end_index_inclusive().map(|i| (i.x, i.y))
}

// ---- completions ---------------------------------------------------------------------------------
pub fn rule_new(text: String, result: Vec<InputNode>) -> parser::autocomplete::AutocompleteRule {
    parser::autocomplete::AutocompleteRule::new(text, result)
}
pub fn match_is_complete(m: &parser::autocomplete::AutocompleteRuleMatch<'_>) -> bool {
    m.is_complete_match()
}
pub fn rules_match<'b>(p: &'b parser::autocomplete::AutocompleteRules, i: &[InputNode], c: usize, n: usize) -> Vec<parser::autocomplete::AutocompleteRuleMatch<'b>> {
    p.matches(i, c, n)
}
pub fn editor_offered(e: &mut MathEditor) -> Option<(usize, Vec<(parser::autocomplete::AutocompleteRule, usize, usize)>, MinimalInputRowPosition)> {
    let found = e.get_autocomplete()?;
    let (at, matches, place) = found.destructure();
    Some((at, matches.iter().map(|m| (m.rule.clone(), m.rule_match_length, m.input_match_length)).collect(), place))
}
pub fn rule_length(r: &parser::autocomplete::AutocompleteRule) -> usize {
    r.parser.len()
}
pub fn match_cmp(a: &parser::autocomplete::AutocompleteRuleMatch<'_>, b: &parser::autocomplete::AutocompleteRuleMatch<'_>) -> Ordering {
    a.cmp(b)
}

pub fn results_moved(chosen: usize, found: Vec<parser::autocomplete::AutocompleteRuleMatch<'_>>, place: MinimalInputRowPosition, way: VerticalDirection) -> (usize, usize) {
    let mut r = caret::autocomplete::AutocompleteResults::new(chosen, found, place);
    r.move_selection(way);
    (r.destructure().0, r.get_selected().rule_match_length)
}
