// Records what the editor asks for; the formula is a row of variables, or what `core.tree` says.
export const core = { log: [], row: [], caret: [{ Row: { row_indices: [], start: 0, end: 0 } }], tree: null };
const names = ["BuiltIn::Nothing", "BuiltIn::Operator", "BuiltIn::Fraction", "BuiltIn::Sup", "BuiltIn::Table", "Core::Variable", "Arithmetic::Multiply", "Arithmetic::Number"];
const id = new Map(names.map((n, i) => [n, i]));
export const node = (name, start, end, children) => ({ name: id.get(name), range: { start, end }, children, value: [] });
export const variable = (start, s) => node("Core::Variable", start, start + 1, { Leaf: { node_type: "Symbol", symbols: [s] } });
export const table = (start, width, ...values) => node("BuiltIn::Table", start, start + 1, { NewRows: { values, width } });
const none = (at) => node("BuiltIn::Nothing", at, at, { Children: [] });
function tree(row, from = 0) {
  if (row.length === from) return none(from);
  if (row.length === from + 1) return variable(from, row[from]);
  return node("Arithmetic::Multiply", from, row.length, { Children: [variable(from, row[from]), node("BuiltIn::Operator", from + 1, from + 1, { Leaf: { node_type: "Operator", symbols: [] } }), tree(row, from + 1)] });
}
const ask = (...v) => core.log.push(JSON.stringify(v));
export class MathEditorBindings {
  move_caret(...v) { ask("move", ...v); }
  undo() { ask("undo"); core.onUndo?.(); }
  redo() { ask("redo"); }
  remove_at_caret(...v) { ask("remove", ...v); }
  insert_at_caret(v) { ask("insert", v); core.row.push(...v); }
  copy(t) { ask("copy", t); return "[copied]"; }
  paste(...v) { ask("paste", ...v); }
  start_selection(p, m) { ask("start", p.offset, m); }
  extend_selection(p) { ask("extend", p.offset); core.onExtend?.(p); }
  finish_selection() { ask("finish"); }
  splice_at_range(r, v) { ask("splice", r.row_indices, r.start, r.end, v.length); core.row.splice(r.start, r.end - r.start, ...v.map((x) => x.Symbol)); }
  select_all() { ask("all"); }
  get_caret() { return core.caret; }
  get_autocomplete() { return undefined; }
  get_input_tree() { return { values: core.row.map((Symbol) => ({ Symbol })) }; }
  get_syntax_tree() { return core.tree ?? tree(core.row); }
}
export class ParseModulesBindings { get_built_in() { return {}; } get_syntax_node_name_map() { return { values: new Map(names.map((n, i) => [n.split("::"), i])) }; } }
export class BoxedParseModule {}
export class ParseModuleCollectionBindings { add_module() {} }
export class MathParserBindings {}
export const ParseModulesCreator = new Proxy({}, { get: () => () => ({}) });
export default async function init() {}
