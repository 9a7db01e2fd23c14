// @ts-nocheck

import { E, T, html, layout, settle } from "./dom.mjs";
import { core, node, variable, table } from "./core.mjs";
console.warn = console.log = () => {};
const { MathEditor } = await import("repo/component/math-editor");
// Only what a listener does to the core and to the screen is looked at.
function editor(row = [], attach = true) {
  core.row = row; core.log = [];
  const e = new MathEditor();
  settle();
  core.log = [];
  const all = e.shadow.find(() => true);
  const surface = all.find((v) => v.listeners?.pointerdown), input = all.find((v) => v.listeners?.keydown);
  const math = all.find((v) => v.tagName === "math");
  return { e, surface, input, math, carets: () => e.shadow.find((v) => v.className === "caret").map((v) => v.style), marks: () => e.shadow.find((v) => v.classList.contains("caret-selection")).map((v) => v.style), asked: () => { settle(); return core.log.splice(0).map((v) => JSON.parse(v)); } };
}
function same(a, b, what) { const x = JSON.stringify(a), y = JSON.stringify(b); if (x !== y) { console.error(what + ": " + x + " instead of " + y); process.exitCode = 1; } }
