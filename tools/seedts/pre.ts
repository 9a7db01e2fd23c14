// @ts-nocheck

import { E, T, layout, html, show } from "./dom.mjs";
import { MathMLRenderer } from "repo/mathml/renderer";
import { fromElement } from "repo/mathml/parsing";
import { RowIndices } from "repo/input-tree/row-indices";
import { getNodeWithRowIndices } from "repo/core";
const NAMES = ["BuiltIn::Nothing", "BuiltIn::Whitespace", "BuiltIn::Whitespaces", "BuiltIn::Operator", "BuiltIn::Fraction", "BuiltIn::Sup", "BuiltIn::Sub", "BuiltIn::Root", "BuiltIn::Table", "Error::MissingToken", "Error::UnknownToken", "Core::Variable", "Core::RoundBrackets", "Arithmetic::Number", "Arithmetic::Add", "Calculus::Infinity", "Comparison::Equals"];
const nameMap = new Map(NAMES.map((n, i) => [n, i]));
const node = (name, start, end, children) => ({ name: nameMap.get(name), range: { start, end }, children, value: [] });
const leaf = (name, start, symbols, t = "Symbol") => node(name, start, start + symbols.length, { Leaf: { node_type: t, symbols } });
const sum = (name, ...cs) => node(name, cs[0].range.start, cs[cs.length - 1].range.end, { Children: cs });
const rows = (name, start, width, ...values) => node(name, start, start + 1, { NewRows: { values, width } });
const nothing = () => node("BuiltIn::Nothing", 0, 0, { Children: [] });
const v = (start, s) => leaf("Core::Variable", start, [s]);
const op = (start, ...s) => leaf("BuiltIn::Operator", start, s, "Operator");
function draw(tree) {
  const result = new MathMLRenderer(nameMap).renderAll({ value: tree, errors: null });
  const math = html("math", ...result.getElement(RowIndices.default()).getElements());
  layout(math);
  return { result, math };
}
console.warn = () => {};
const at = (...r) => new RowIndices(r);
function same(a, b, what) { const x = JSON.stringify(a), y = JSON.stringify(b); if (x !== y) { console.error(what + ": " + x + " instead of " + y); process.exitCode = 1; } }
