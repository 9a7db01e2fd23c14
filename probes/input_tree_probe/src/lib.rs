//! Roots for the analysis: one non-generic function per public entry point of `input_tree`
//! a property speaks about.  Nothing here is ever executed; the functions only make the compiler
//! instantiate the generic code with the types the program uses.
#![allow(clippy::all)]
#![feature(allocator_api, try_trait_v2)]
pub mod models;


use input_tree::{
    direction::*, editing::editable::Editable, editing::invertible::Invertible, editing::*, focus::*, grid::*,
    input_tree::InputTree, node::*, row::*,
};
use std::cmp::Ordering;

type G = GridVec<InputRow>;

// ---- edits -----------------------------------------------------------------------------------
pub fn tree_apply_edit(t: &mut InputTree, e: &BasicEdit) {
    t.apply_edit(e)
}
pub fn tree_apply_edits(t: &mut InputTree, e: &[BasicEdit]) {
    t.apply_edits(e)
}
pub fn basic_edit_inverse(e: &BasicEdit) -> BasicEdit {
    e.inverse()
}
pub fn row_edit_inverse(e: &RowEdit) -> RowEdit {
    e.inverse()
}
pub fn grid_edit_inverse(e: &GridEdit) -> GridEdit {
    e.inverse()
}
pub fn edit_type_inverse(e: &EditType) -> EditType {
    e.inverse()
}
pub fn remove_range(r: &InputRowRange<'_>) -> (Vec<BasicEdit>, MinimalInputRowPosition) {
    BasicEdit::remove_range(r)
}
pub fn insert_at_position(p: &InputRowPosition<'_>, v: Vec<InputNode>) -> (Vec<BasicEdit>, MinimalInputRowPosition) {
    BasicEdit::insert_at_position(p, v)
}
pub fn replace_range(r: &InputRowRange<'_>, v: Vec<InputNode>) -> (Vec<BasicEdit>, MinimalInputRowRange) {
    BasicEdit::replace_range(r, v)
}
pub fn position_apply_edit(p: &mut MinimalInputRowPosition, e: &BasicEdit) {
    p.apply_edit(e)
}
pub fn range_apply_edit(p: &mut MinimalInputRowRange, e: &BasicEdit) {
    p.apply_edit(e)
}
pub fn range_apply_edits(p: &mut MinimalInputRowRange, e: &[BasicEdit]) {
    p.apply_edits(e)
}
// ---- positions and ranges --------------------------------------------------------------------
pub fn position_cmp(a: &InputRowPosition<'_>, b: &InputRowPosition<'_>) -> Ordering {
    a.cmp(b)
}
pub fn position_partial_cmp<'a>(a: &InputRowPosition<'a>, b: &InputRowPosition<'a>) -> Option<Ordering> {
    a.partial_cmp(b)
}
pub fn position_eq<'a>(a: &InputRowPosition<'a>, b: &InputRowPosition<'a>) -> bool {
    a == b
}
pub fn position_lt<'a>(a: &InputRowPosition<'a>, b: &InputRowPosition<'a>) -> bool {
    a < b
}
pub fn position_le<'a>(a: &InputRowPosition<'a>, b: &InputRowPosition<'a>) -> bool {
    a <= b
}
pub fn position_gt<'a>(a: &InputRowPosition<'a>, b: &InputRowPosition<'a>) -> bool {
    a > b
}
pub fn position_ge<'a>(a: &InputRowPosition<'a>, b: &InputRowPosition<'a>) -> bool {
    a >= b
}
pub fn cmp_indices_and_offset(a: &RowIndices, ao: &Offset, b: &RowIndices, bo: &Offset) -> Ordering {
    RowIndices::cmp_indices_and_offset(a, ao, b, bo)
}
pub fn position_new(f: InputFocusRow<'_>, o: Offset) -> InputRowPosition<'_> {
    InputRowPosition::new(f, o)
}
pub fn position_row_indices<'a>(p: &'a InputRowPosition<'_>) -> &'a RowIndices {
    p.row_indices()
}
pub fn position_to_minimal(p: &InputRowPosition<'_>) -> MinimalInputRowPosition {
    p.to_minimal()
}
pub fn position_from_minimal<'a>(f: InputFocusRow<'a>, m: &MinimalInputRowPosition) -> InputRowPosition<'a> {
    InputRowPosition::from_minimal(f, m)
}
pub fn position_in_range<'a>(p: &InputRowPosition<'a>, r: InputRowRange<'a>) -> bool {
    p.in_range(r)
}
pub fn range_from_position<'a>(p: &InputRowPosition<'a>) -> InputRowRange<'a> {
    p.into()
}
pub fn range_new(f: InputFocusRow<'_>, s: Offset, e: Offset) -> InputRowRange<'_> {
    InputRowRange::new(f, s, e)
}
pub fn range_left_offset(r: &InputRowRange<'_>) -> Offset {
    r.left_offset()
}
pub fn range_right_offset(r: &InputRowRange<'_>) -> Offset {
    r.right_offset()
}
pub fn range_len(r: &InputRowRange<'_>) -> usize {
    r.len()
}
pub fn range_is_empty(r: &InputRowRange<'_>) -> bool {
    r.is_empty()
}
pub fn range_is_collapsed(r: &InputRowRange<'_>) -> bool {
    r.is_collapsed()
}
pub fn range_is_forwards(r: &InputRowRange<'_>) -> bool {
    r.is_forwards()
}
pub fn range_start_position<'a>(r: &InputRowRange<'a>) -> InputRowPosition<'a> {
    r.start_position()
}
pub fn range_end_position<'a>(r: &InputRowRange<'a>) -> InputRowPosition<'a> {
    r.end_position()
}
pub fn range_left_position<'a>(r: &InputRowRange<'a>) -> InputRowPosition<'a> {
    r.left_position()
}
pub fn range_right_position<'a>(r: &InputRowRange<'a>) -> InputRowPosition<'a> {
    r.right_position()
}
pub fn range_values<'a>(r: &'a InputRowRange<'_>) -> &'a [InputNode] {
    r.values()
}
pub fn range_row_indices<'a>(r: &'a InputRowRange<'_>) -> &'a RowIndices {
    r.row_indices()
}
pub fn range_contains<'a>(r: &InputRowRange<'a>, p: &InputRowPosition<'a>) -> bool {
    r.contains(p)
}
pub fn range_to_minimal(r: &InputRowRange<'_>) -> MinimalInputRowRange {
    r.to_minimal()
}
pub fn range_from_minimal<'a>(f: InputFocusRow<'a>, m: &MinimalInputRowRange) -> InputRowRange<'a> {
    InputRowRange::from_minimal(f, m)
}
pub fn range_from_positions<'a>(
    t: &'a InputTree,
    a: &InputRowPosition<'a>,
    b: &InputRowPosition<'a>,
) -> InputRowRange<'a> {
    t.range_from_positions(a, b)
}
// ---- rows and paths --------------------------------------------------------------------------
pub fn indices_get_shared(a: &RowIndices, b: &RowIndices) -> RowIndices {
    a.get_shared(b)
}
pub fn indices_starts_with(a: &RowIndices, b: &RowIndices) -> bool {
    a.starts_with(b)
}
pub fn indices_push(a: &mut RowIndices, b: RowIndex) {
    a.push(b)
}
pub fn indices_pop(a: &mut RowIndices) -> Option<RowIndex> {
    a.pop()
}
pub fn indices_at(a: &RowIndices, b: usize) -> Option<RowIndex> {
    a.at(b)
}
pub fn indices_at_mut<'a>(a: &'a mut RowIndices, b: usize) -> Option<&'a mut RowIndex> {
    a.at_mut(b)
}
pub fn indices_len(a: &RowIndices) -> usize {
    a.len()
}
pub fn indices_is_empty(a: &RowIndices) -> bool {
    a.is_empty()
}
pub fn row_offset_to_index(r: &InputRow, o: Offset, d: HorizontalDirection) -> Option<usize> {
    r.offset_to_index(o, d)
}
pub fn row_len(r: &InputRow) -> usize {
    r.len()
}
pub fn row_is_empty(r: &InputRow) -> bool {
    r.is_empty()
}
// ---- focus -----------------------------------------------------------------------------------
pub fn focus_from_root(r: &InputRow) -> InputFocusRow<'_> {
    InputFocusRow::from_root(r)
}
pub fn tree_root_focus(t: &InputTree) -> InputFocusRow<'_> {
    t.root_focus()
}
pub fn focus_walk_down<'a>(f: InputFocusRow<'a>, i: &RowIndices) -> InputFocusRow<'a> {
    f.walk_down_indices(i)
}
pub fn focus_row_parent(f: InputFocusRow<'_>) -> Option<InputFocusNode<'_>> {
    f.parent()
}
pub fn focus_row_child_at(f: InputFocusRow<'_>, i: usize) -> Option<InputFocusNode<'_>> {
    f.child_at(i)
}
pub fn focus_row_row_at(f: InputFocusRow<'_>, i: RowIndex) -> Option<InputFocusRow<'_>> {
    f.row_at(i)
}
pub fn focus_row_node_at<'a>(f: &InputFocusRow<'a>, i: usize) -> Option<&'a InputNode> {
    f.node_at(i)
}
pub fn focus_row_row<'a>(f: &InputFocusRow<'a>) -> &'a InputRow {
    f.row()
}
pub fn focus_row_len(f: &InputFocusRow<'_>) -> usize {
    f.len()
}
pub fn focus_row_is_empty(f: &InputFocusRow<'_>) -> bool {
    f.is_empty()
}
pub fn focus_row_indices<'a>(f: &'a InputFocusRow<'_>) -> &'a RowIndices {
    f.row_indices()
}
pub fn focus_row_index_in_parent(f: &InputFocusRow<'_>) -> Option<usize> {
    f.index_in_parent()
}
pub fn focus_row_offset_to_index(f: &InputFocusRow<'_>, o: Offset, d: HorizontalDirection) -> Option<usize> {
    f.offset_to_index(o, d)
}
pub fn focus_row_eq<'a>(a: &InputFocusRow<'a>, b: &InputFocusRow<'a>) -> bool {
    a == b
}
pub fn focus_node_node<'a>(f: &InputFocusNode<'a>) -> &'a InputNode {
    f.node()
}
pub fn focus_node_parent(f: InputFocusNode<'_>) -> InputFocusRow<'_> {
    f.parent()
}
pub fn focus_node_child_at<'a>(f: InputFocusNode<'a>, i: usize) -> Result<InputFocusRow<'a>, InputFocusNode<'a>> {
    f.child_at(i)
}
pub fn focus_node_element_indices(f: &InputFocusNode<'_>) -> ElementIndices {
    f.element_indices()
}
pub fn focus_node_index_in_parent(f: &InputFocusNode<'_>) -> usize {
    f.index_in_parent()
}
pub fn focus_node_eq<'a>(a: &InputFocusNode<'a>, b: &InputFocusNode<'a>) -> bool {
    a == b
}
// ---- grids -----------------------------------------------------------------------------------
pub fn grid_from_one_dimensional(v: Vec<InputRow>, w: usize) -> G {
    G::from_one_dimensional(v, w)
}
pub fn grid_size(g: &G) -> (usize, usize) {
    g.size()
}
pub fn grid_width(g: &G) -> usize {
    g.width()
}
pub fn grid_height(g: &G) -> usize {
    g.height()
}
pub fn grid_get(g: &G, i: Index2D) -> Option<&InputRow> {
    g.get(i)
}
pub fn grid_get_mut(g: &mut G, i: Index2D) -> Option<&mut InputRow> {
    g.get_mut(i)
}
pub fn grid_set(g: &mut G, i: Index2D, r: InputRow) -> Option<InputRow> {
    g.set(i, r)
}
pub fn grid_is_empty(g: &G) -> bool {
    g.is_empty()
}
pub fn grid_values_vec(g: &G) -> Vec<&InputRow> {
    g.values().collect()
}
pub fn grid_into_vec(g: G) -> Vec<InputRow> {
    g.into_iter().collect()
}
pub fn index_new(x: usize, y: usize, w: usize) -> Index2D {
    Index2D::new(x, y, w)
}
pub fn index_from_index(i: usize, g: &G) -> Index2D {
    Index2D::from_index(i, g)
}
pub fn index_to_index(i: Index2D) -> usize {
    i.to_index()
}
pub fn index_to_index_checked(i: Index2D, g: &G) -> Option<usize> {
    i.to_index_checked(g)
}
pub fn index_add_checked(i: Index2D, d: (usize, usize), g: &G) -> Option<Index2D> {
    i.add_checked(d, g)
}
pub fn index_sub_checked(i: Index2D, d: (usize, usize), g: &G) -> Option<Index2D> {
    i.sub_checked(d, g)
}
pub fn index_into_pair(i: Index2D) -> (usize, usize) {
    i.into()
}
pub fn grid_get_flat(g: &G, i: usize) -> Option<&InputRow> {
    g.get(Index2D::from_index(i, g))
}
// ---- nodes -----------------------------------------------------------------------------------
pub fn node_fraction(v: [InputRow; 2]) -> InputNode {
    InputNode::fraction(v)
}
pub fn node_root(v: [InputRow; 2]) -> InputNode {
    InputNode::root(v)
}
pub fn node_sup(v: InputRow) -> InputNode {
    InputNode::sup(v)
}
pub fn node_sub(v: InputRow) -> InputNode {
    InputNode::sub(v)
}
pub fn node_table(v: Vec<InputRow>, w: usize) -> InputNode {
    InputNode::table(v, w)
}
pub fn node_row_mut(n: &mut InputNode, i: usize) -> &mut InputRow {
    n.row_mut(i)
}
pub fn node_has_resizable_grid(n: &InputNode) -> bool {
    n.has_resizable_grid()
}
pub fn node_grid(n: &InputNode) -> Option<&G> {
    n.grid()
}
pub fn node_grid_mut(n: &mut InputNode) -> Option<&mut G> {
    n.grid_mut()
}
pub fn variant_has_resizable_grid(v: &InputNodeVariant) -> bool {
    v.has_resizable_grid()
}
// ---- printing --------------------------------------------------------------------------------
pub fn fmt_row(r: &InputRow, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(r, f)
}
pub fn fmt_node(r: &InputNode, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(r, f)
}
pub fn fmt_variant(r: &InputNodeVariant, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(r, f)
}
pub fn fmt_grid(r: &G, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(r, f)
}
pub fn fmt_escaped(s: &str, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    input_tree::print_helpers::write_with_escaped_double_quotes(s, f)
}
pub fn fmt_separated(v: Vec<u32>, s: &str, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    input_tree::print_helpers::write_with_separator(v, s, f)
}

// ---- element comparisons the library's slice comparison calls ------------------------------------
pub fn row_index_cmp(a: &RowIndex, b: &RowIndex) -> Ordering {
    a.cmp(b)
}
pub fn row_index_partial_cmp(a: &RowIndex, b: &RowIndex) -> Option<Ordering> {
    a.partial_cmp(b)
}
pub fn row_index_eq(a: &RowIndex, b: &RowIndex) -> bool {
    a == b
}
pub fn node_eq(a: &InputNode, b: &InputNode) -> bool {
    a == b
}
pub fn row_eq(a: &InputRow, b: &InputRow) -> bool {
    a == b
}
// ---- rectangles in grids ----------------------------------------------------------------------
pub fn rect_from_indices(a: Index2D, b: Index2D, g: &G) -> GridRectangle {
    GridRectangle::from_indices_inclusive(a, b, g)
}
pub fn rect_new(a: usize, b: usize, w: usize) -> GridRectangle {
    GridRectangle::new(a..b, w)
}
pub fn rect_width(r: &GridRectangle) -> usize {
    r.width()
}
pub fn rect_height(r: &GridRectangle) -> usize {
    r.height()
}
pub fn rect_size(r: &GridRectangle) -> (usize, usize) {
    r.size()
}
pub fn rect_is_empty(r: &GridRectangle) -> bool {
    r.is_empty()
}
pub fn rect_start_index(r: &GridRectangle) -> Index2D {
    r.start_index()
}
pub fn rect_end_index(r: &GridRectangle) -> Option<Index2D> {
    r.end_index_inclusive()
}
pub fn grid_get_view<'a>(g: &'a G, r: GridRectangle) -> GridView<'a, InputRow> {
    g.get_view(r)
}
pub fn view_new<'a>(g: &'a G, r: GridRectangle) -> GridView<'a, InputRow> {
    GridView::new(g, r)
}
pub fn view_size(v: &GridView<'_, InputRow>) -> (usize, usize) {
    v.size()
}
pub fn view_width(v: &GridView<'_, InputRow>) -> usize {
    v.width()
}
pub fn view_height(v: &GridView<'_, InputRow>) -> usize {
    v.height()
}
pub fn view_get<'a>(v: &'a GridView<'_, InputRow>, i: Index2D) -> Option<&'a InputRow> {
    v.get(i)
}
pub fn view_is_empty(v: &GridView<'_, InputRow>) -> bool {
    v.is_empty()
}
pub fn grid_range_new<'a>(f: InputFocusNode<'a>, r: GridRectangle) -> InputGridRange<'a> {
    InputGridRange::new(f, r)
}
pub fn grid_range_top_left(r: &InputGridRange<'_>) -> (usize, usize) {
    r.top_left_index()
}
pub fn grid_range_bottom_right(r: &InputGridRange<'_>) -> Option<(usize, usize)> {
    r.bottom_right_index()
}
pub fn grid_range_is_collapsed(r: &InputGridRange<'_>) -> bool {
    r.is_collapsed()
}
pub fn grid_range_grid<'a>(r: &'a InputGridRange<'_>) -> &'a G {
    r.grid()
}
pub fn grid_range_get_row<'a>(r: &'a InputGridRange<'_>, i: usize) -> Option<&'a InputRow> {
    r.get_row(i)
}
pub fn grid_range_to_minimal(r: &InputGridRange<'_>) -> MinimalInputGridRange {
    r.to_minimal()
}
pub fn grid_range_from_minimal<'a>(f: InputFocusRow<'a>, m: &MinimalInputGridRange) -> InputGridRange<'a> {
    InputGridRange::from_minimal(f, m)
}
pub fn grid_edit_row_indices_edit(e: &GridEdit) -> row_indices_edit::RowIndicesEdit<'_> {
    e.get_row_indices_edit()
}
pub fn edit_row_indices_edit(e: &BasicEdit) -> row_indices_edit::RowIndicesEdit<'_> {
    e.get_row_indices_edit()
}
pub fn row_indices_edit_is_insert(e: &row_indices_edit::RowIndicesEdit<'_>) -> bool {
    e.is_insert()
}
pub fn direction_from_horizontal(d: HorizontalDirection) -> Direction {
    d.into()
}
pub fn direction_from_vertical(d: VerticalDirection) -> Direction {
    d.into()
}
// ---- reading and writing data --------------------------------------------------------------------
pub fn read_grid(cells: usize, width: u64) -> Option<GridVec<InputRow>> {
    wire::read(wire::document(cells, width))
}
pub fn read_node(kind: &str, cells: usize, width: u64) -> Option<InputNode> {
    wire::read(wire::container(kind, cells, width))
}
