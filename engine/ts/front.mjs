// Obligations about the front end.  usage: front.mjs JOB.json OUT.json
import fs from "node:fs";
import path from "node:path";
import { World, Obj, Arr, Fn, MapV, Abs, fin, top, isAbs, explore, Mismatch, Undecided, Throw } from "./interp.mjs";
import { DomNode, domText } from "./globals.mjs";
import { v06 } from "./component.mjs";

const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const results = [];
let visited = new Set();
const RENDERER = "src/mathml/renderer.ts", CORE = "src/core/index.ts", RESULT = "src/mathml/render-result.ts", INDICES = "src/input-tree/row-indices.ts";

function world(dev, more = {}) {
  return new World(job.root, { importMeta: (w) => w.obj({ env: w.obj({ DEV: dev, PROD: !dev, MODE: dev ? "development" : "production" }) }), ...more });
}
let deadline = Date.now() + (job.seconds ?? 300) * 1000;
function ob(name, w, f, max) {
  const r = { name, ok: 0, paths: 0, steps: 0, violations: [], undecided: {}, complete: true };
  const t0 = Date.now();
  if (t0 > deadline) { r.complete = false; r.undecided["the check's time ran out"] = 1; results.push(r); return; }
  try {
    const o = explore(w, f, max);
    r.ok = o.ok; r.paths = o.paths; r.complete = o.complete; r.steps = w.steps;
    for (const u of o.undecided) r.undecided[u.slice(0, 300)] = (r.undecided[u.slice(0, 300)] ?? 0) + 1;
    const seen = new Set();
    for (const v of o.violations) { const k = v.text + (v.where[0] ?? ""); if (!seen.has(k)) { seen.add(k); r.violations.push({ text: v.text, where: v.where.slice(0, 6) }); } }
  } catch (e) { r.error = String(e.stack ?? e).slice(0, 1500); r.complete = false; }
  r.wall = (Date.now() - t0) / 1000;
  for (const x of w.visited) visited.add(x);
  results.push(r);
}
const need = (c, m, w) => { if (!c) throw new Mismatch(m, w?.where() ?? []); };

// ---- pieces of the program
/** The names as the editor hands them to the renderer: joined the way the front end joins them. */
const nameMap = (w) => {
  const m = new MapV(w), join = w.import(RENDERER).get("joinPathIdentifier");
  job.names.forEach((n, i) => { const k = join instanceof Fn ? w.call(join, undefined, [w.arr(n.split("::"))]) : n; if (typeof k !== "string") throw new Undecided("joined name"); need(!m.m.has(k), `two names are joined to ${k}`, w); m.m.set(k, i); });
  return m;
};
function makeRenderer(w) {
  const R = w.import(RENDERER).get("MathMLRenderer");
  if (R === undefined) throw new Undecided("MathMLRenderer is gone");
  return w.construct(R, [nameMap(w)]);
}
const method = (w, o, n, ...a) => { const f = w.get(o, n); if (!(f instanceof Fn)) throw new Undecided(`method ${n} is gone`); return w.call(f, o, a); };
/** A syntax tree as the core hands it over. */
function syntax(w, t) {
  const ch = t.kind === "leaf" ? { Leaf: { node_type: t.type ?? "Symbol", symbols: t.symbols } } : t.kind === "rows" ? null : null;
  const o = new Obj(w.protos.object);
  o.src = t;
  const id = job.names.indexOf(t.name);
  if (id < 0) throw new Undecided("name " + t.name);
  o.props.set("name", { v: id });
  const kids = (t.children ?? []).map((c) => syntax(w, c));
  o.kids = kids;
  let c;
  if (t.kind === "leaf") c = w.from(ch);
  else if (t.kind === "rows") c = w.obj({ NewRows: w.obj({ values: w.arr(kids), width: t.width }) });
  else c = w.obj({ Children: w.arr(kids) });
  o.props.set("children", { v: c });
  o.props.set("value", { v: w.arr([]) });
  o.props.set("range", { v: w.obj({ start: t.start, end: t.end }) });
  return o;
}
const show = (t) => t.kind === "leaf" ? (t.symbols ?? []).join("") : t.name.split("::").pop() + (t.kind === "rows" ? "[" : "(") + (t.children ?? []).map(show).join(", ") + (t.kind === "rows" ? "]" : ")");

// ---- V01: every name has a renderer, and only one
function v01() {
  for (const dev of [true, false]) ob(`constructor of the renderer with every registered name${dev ? ", development build" : ""}`, world(dev), (w) => {
    const r = makeRenderer(w);
    for (const [n, i] of job.names.map((n, i) => [n, i])) {
      // looked up the way render does it; the renderer functions themselves are V03's business
      const probe = new Obj(w.protos.object);
      probe.props.set("name", { v: i });
      let called = false;
      w.opts.hook = (w2, f, t, a) => { if (a[0] === probe && f.node && f.name !== "MathMLRenderer.render") { called = true; return { v: top("rendered " + n) }; } return null; };
      try { method(w, r, "render", probe, null); } finally { w.opts.hook = null; }
      need(called, `nothing is asked to render ${n}`, w);
    }
  });
  const names = new Set(job.names);
  ob("names that differ only by id", world(false), () => need(names.size === job.names.length, "two names are the same"));
}

// ---- V03: the renderer accepts every tree of the parser and mirrors it
const isRowsOp = (t) => t.name === "BuiltIn::Operator" && t.kind === "rows";
const carries = (t) => isRowsOp(t) || (t.name === "BuiltIn::Whitespaces" && t.children.some(carries));
/** Text the rendered tree must show, in document order: symbols, with the places of childless nodes marked. */
function expected(t, el, w) {
  if (t.opaque) return "<" + t.opaque + ">";
  if (t.kind === "leaf") return t.symbols.join("");
  const kids = w.iterate(method(w, el, "getChildren"));
  if (t.kind === "children" && !t.children.length) return domAll(w, el);
  const parts = t.children.map((c, i) => expected(c, kids[i], w));
  return (t.name === "BuiltIn::Root" ? parts.reverse() : parts).join("");
}
const domAll = (w, el) => w.iterate(method(w, el, "getElements")).map(domText).join("");
function mirror(w, el, node, rowIndex) {
  const t = node.src;
  if (t.opaque) return;
  need(w.get(el, "syntaxTree") === node, `what is rendered for ${show(t)} does not belong to that node`, w);
  const ri = w.get(el, "rowIndex");
  if (rowIndex === null) need(ri === null || ri === undefined, `${show(t)} is taken for the start of a row: ${w.show(ri)}`, w);
  else need(ri instanceof Arr && ri.items[0] === rowIndex[0] && ri.items[1] === rowIndex[1], `row index of ${show(t)} is ${w.show(ri)}, expected ${rowIndex}`, w);
  const kids = w.iterate(method(w, el, "getChildren"));
  need(kids.length === node.kids.length, `${show(t)} has ${node.kids.length} children, ${kids.length} are rendered`, w);
  kids.forEach((k, i) => mirror(w, k, node.kids[i], t.kind === "rows" ? [t.start, i] : null));
}
const within = (root, n) => { for (let p = n; p; p = p.parentNode) if (p === root) return true; return false; };
function layout(w, el, t) {
  if (t.opaque) return;
  const els = w.iterate(method(w, el, "getElements"));
  need(els.length > 0 && els.every((e) => e instanceof DomNode && e.kind === "element"), `${show(t)} is rendered as something that is not an element`, w);
  const kids = w.iterate(method(w, el, "getChildren"));
  const all = els.flatMap(function f(e) { return [e, ...e.kids.flatMap(f)]; });
  for (const [name, order, n] of [["mfrac", [0, 1], 2], ["mroot", [1, 0], 2], ["msup", [0, 1], 2], ["msub", [0, 1], 2]]) {
    const want = { mfrac: "BuiltIn::Fraction", mroot: "BuiltIn::Root", msup: "BuiltIn::Sup", msub: "BuiltIn::Sub" }[name];
    if (t.name !== want) continue;
    const e = els.find((x) => x.tag === name);
    need(e, `${show(t)} has no ${name} element`, w);
    const ch = e.kids.filter((k) => k.kind === "element");
    need(ch.length === n && e.kids.length === n, `${name} with ${e.kids.length} children`, w);
    order.forEach((i, j) => w.iterate(method(w, kids[i], "getElements")).forEach((k) => need(within(ch[j], k), `child ${i} of ${show(t)} is not in place ${j} of the ${name} element`, w)));
  }
  if (t.name === "BuiltIn::Table") {
    const e = els.find((x) => x.tag === "mtable");
    need(e, `${show(t)} has no mtable element`, w);
    const rows = e.kids;
    need(rows.length === t.children.length / t.width && rows.every((r) => r.tag === "mtr" && r.kids.length === t.width && r.kids.every((c) => c.tag === "mtd")), `a table of ${t.children.length / t.width} rows and ${t.width} columns is rendered as ${rows.map((r) => r.tag + r.kids.length)}`, w);
    kids.forEach((k, i) => w.iterate(method(w, k, "getElements")).forEach((n) => need(within(rows[Math.floor(i / t.width)].kids[i % t.width], n), `cell ${i} of a table of width ${t.width} is in another cell`, w)));
  }
  kids.forEach((k, i) => layout(w, k, t.children[i]));
}
/** One node of a kind, what is below it opaque: by induction this covers trees of any size. */
function prune(t) {
  const cut = (c, i) => carries(c) ? { ...c, children: c.children.map((d, j) => (isRowsOp(c) ? opaque(d, i + "." + j) : cut(d, i + "." + j))) } : opaque(c, i);
  return { ...t, children: (t.children ?? []).map((c, i) => cut(c, String(i))) };
}
const opaque = (t, i) => ({ opaque: i, name: t.name, kind: t.kind, children: [], symbols: [], start: t.start, end: t.end, type: t.type });
const shapeKey = (t) => JSON.stringify(t, (k, v) => (k === "start" || k === "end" || k === "symbols" || (k === "name" && 0) ? undefined : v)) + "|" + (t.symbols?.length ?? 0);
function pruneKey(t) { return t.opaque ? "*" + (t.end - t.start === 0 ? "0" : "") : t.name + t.kind + (t.width ?? "") + "(" + (t.children ?? []).map(pruneKey).join(",") + ")" + (t.kind === "leaf" ? Math.min(t.symbols.length, 2) : ""); }
function renderOpaque(w, self, node, rowIndex) {
  const n = 1 + w.choose(2, true) * 2;      // one element, or three as for containers
  const els = Array.from({ length: n }, (_, i) => { const d = new DomNode(w, "element", i === 1 || n === 1 ? "mrow" : "mphantom"); if (i === (n === 1 ? 0 : 1)) { const x = new DomNode(w, "text", "#text"); x.text = "<" + node.src.opaque + ">"; x.parentNode = d; d.kids.push(x); } return d; });
  const o = new Obj(w.protos.object);
  o.props.set("syntaxTree", { v: node }); o.props.set("rowIndex", { v: rowIndex });
  o.props.set("getElements", { v: w.fn("getElements", () => w.arr(els)) });
  o.props.set("getChildren", { v: w.fn("getChildren", () => w.arr([])) });
  return o;
}
function subtrees(t, f, parent = null) { f(t, parent); for (const c of t.children ?? []) subtrees(c, f, t); }
function v03() {
  const prods = new Map();
  for (const { row, tree } of job.trees) subtrees(tree, (t, parent) => {
    if (isRowsOp(t) || (t.name === "BuiltIn::Whitespaces" && carries(t))) return;      // needs what its parent hands down; covered there
    const p = prune(t), k = pruneKey(p);
    if (!prods.has(k)) prods.set(k, { p, row });
  });
  for (const [k, { p, row }] of prods) for (const dev of [true, false]) {
    const w = world(dev);
    ob(`${p.name} ${k.slice(p.name.length)}${dev ? ", development build" : ""} (as in ${row})`, w, (w) => {
      const r = makeRenderer(w);
      const node = syntax(w, p), opq = new Set();
      (function f(n) { if (n.src.opaque) opq.add(n); n.kids.forEach(f); })(node);
      const seen = new Map();
      w.opts.hook = (w2, f, t, a) => {
        if (!(a[0] instanceof Obj) || !opq.has(a[0]) || f.name !== "MathMLRenderer.render") return null;
        const o = renderOpaque(w2, t, a[0], a[1] ?? null);
        seen.set(a[0], o);
        return { v: o };
      };
      try {
        const el = method(w, r, "render", node, null);
        mirror(w, el, node, null);
        // opaque children: each rendered, with the right row index
        (function f(n, el) {
          const kids = w.iterate(method(w, el, "getChildren"));
          n.kids.forEach((c, i) => {
            if (opq.has(c)) {
              need(seen.get(c) === kids[i], `child ${i} of ${p.name} is not rendered`, w);
              const ri = w.get(kids[i], "rowIndex");
              if (n.src.kind === "rows") need(ri instanceof Arr && ri.items[0] === n.src.start && ri.items[1] === i, `row index of row ${i} is ${w.show(ri)}`, w);
              else need(ri === null, `a child on the same row has the row index ${w.show(ri)}`, w);
            } else f(c, kids[i]);
          });
        })(node, el);
        layout(w, el, p);
        const want = expected(p, el, w), got = domAll(w, el);
        need(got === want, `shows ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`, w);
      } finally { w.opts.hook = null; }
    });
  }
  for (const { row, tree } of job.trees) ob("whole tree of " + row, world(false), (w) => {
    const el = rendered(w, tree).el;
    mirror(w, el, w.get(el, "syntaxTree"), null);
    const want = expected(tree, el, w), got = domAll(w, el);
    need(got === want, `shows ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`, w);
    layout(w, el, tree);
  });
}
function rendered(w, tree) {
  const r = makeRenderer(w);
  const node = syntax(w, tree);
  const res = method(w, r, "renderAll", w.obj({ errors: null, value: node }));
  const RI = w.import(INDICES).get("RowIndices");
  const ind = (p) => w.construct(RI, [w.arr(p.map((x) => w.arr([...x])))]);
  const el = method(w, res, "getElement", ind([]));
  return { res, node, el, ind };
}
/** Rows of a tree: [path of row indices, node]. */
function rowsOf(node, at = [], out = []) {
  out.push([at, node]);
  (function f(n) { n.kids.forEach((c, i) => (n.src.kind === "rows" ? rowsOf(c, [...at, [n.src.start, i]], out) : f(c))); })(node);
  return out;
}

// ---- V04: places in the formula and on the screen
function v04() {
  const full = (i) => Array.from({ length: i }, (_, k) => k);
  for (const { row, tree } of job.trees) {
    places(row, tree);
    if (job.near.includes(row)) pointing(row, tree);
    ob("rows and caret places of " + row, world(false), (w) => {
      const { res, node, ind } = rendered(w, tree);
      const find = w.import(CORE).get("getNodeWithRowIndices");
      for (const [at, n] of rowsOf(node)) {
        const el = method(w, res, "getElement", ind(at));
        need(w.get(el, "syntaxTree") === n, `the row at ${JSON.stringify(at)} is ${show(n.src)}, found was ${w.show(w.get(el, "syntaxTree"), 1)}`, w);
        if (find instanceof Fn) need(w.call(find, undefined, [node, ind(at)]) === n, `getNodeWithRowIndices at ${JSON.stringify(at)} finds another row`, w);
        for (let o = n.src.start; o <= n.src.end; o++) {
          const c = method(w, el, "getCaretPosition", o);
          for (const k of ["x", "y"]) { const v = w.get(c, k); need(typeof v === "number" ? isFinite(v) : isAbs(v) && v.kind === "fin", `caret position ${k} is ${w.show(v)}`, w); }
        }
        const s = method(w, res, "getViewportCaretSize", ind(at));
        need(isAbs(s) ? s.kind === "fin" : s > 0, "caret size", w);
        method(w, res, "getViewportRowBounds", ind(at));
      }
    }, 3000);
    if (job.selections.includes(row)) ob("selections of " + row, world(false), (w) => {
      const { res, node, ind } = rendered(w, tree);
      for (const [at, n] of rowsOf(node)) for (let a = n.src.start; a <= n.src.end; a++) for (let b = n.src.start; b <= n.src.end; b++) {
        const s = method(w, res, "getViewportSelection", w.obj({ indices: ind(at), start: a, end: b }));
        const rect = w.get(s, "rect");
        const wd = w.get(rect, "width");
        need(isAbs(wd) ? wd.lo >= 0 : wd >= 0, `a selection from ${a} to ${b} has the width ${w.show(wd)}`, w);
        if (a === b) need(wd === 0, `a collapsed selection has a width`, w);
      }
    }, 3000);
    if (job.clicks.includes(row)) ob("the place nearest to an arbitrary point in " + row, world(false), (w) => {
      const { res, node } = rendered(w, tree);
      const p = method(w, res, "getLayoutPosition", w.obj({ x: fin("pointer x"), y: fin("pointer y") }));
      const ix = w.iterate(w.get(p, "indices")).map((r) => [w.get(r, "0"), w.get(r, "1")]);
      const hit = rowsOf(node).find(([at]) => JSON.stringify(at) === JSON.stringify(ix));
      need(hit, `a click leads to the row ${JSON.stringify(ix)}, which does not exist`, w);
      const o = w.get(p, "offset");
      need(typeof o === "number" && hit[1].src.start <= o && o <= hit[1].src.end, `a click leads to the offset ${w.show(o)} in a row of length ${hit[1].src.end}`, w);
    }, 20000);
  }
}

/** Any arrangement in which the texts are drawn from left to right (and downwards), each within a slot of its own. */
function leftToRight(w, els, put = (k) => ({ x: [100 * k + 10, 100 * k + 90], y: [100 * k + 10, 100 * k + 90] })) {
  const order = [], range = new Map();
  (function f(n) { const from = order.length; if (n.kind === "text") order.push(n); n.kids.forEach(f); range.set(n, [from, order.length]); })({ kind: "element", kids: els });
  const place = order.map((t, k) => { const { x, y } = put(k, t, order); return { left: fin("left", x[0], x[0] + 2), right: fin("right", x[1] - 2, x[1]), top: fin("top", y[0], y[0] + 2), bottom: fin("bottom", y[1] - 2, y[1]) }; });
  w.layout = (n) => {
    const r = range.get(n);
    if (!r) return null;
    const [a, b] = r;
    if (a < b) {
      const all = place.slice(a, b), low = (k) => all.reduce((m, p) => (p[k].lo < m.lo ? p[k] : m), all[0][k]), high = (k) => all.reduce((m, p) => (p[k].hi > m.hi ? p[k] : m), all[0][k]);
      return { left: low("left"), top: low("top"), right: high("right"), bottom: high("bottom") };
    }
    const x = fin("place", 100 * a - 3, 100 * a + 3), y = fin("place", 100 * a - 3, 100 * a + 3);
    return { left: x, right: x, top: y, bottom: y };
  };
  return order;
}
/** For a row: the texts each of its tokens is shown by, by their place in the order of drawing, and those that stand for nothing. */
function shownTokens(w, el, node, order) {
  const of = new Map(), all = [], filler = [], unit = new Map();
  const textsIn = (e) => { const out = []; (function f(n) { if (n.kind === "text") out.push(order.indexOf(n)); n.kids.forEach(f); })({ kids: w.iterate(method(w, e, "getElements")) }); return out; };
  (function f(e, n) {
    if (n.src.kind === "children" && n.kids.length) return w.iterate(method(w, e, "getChildren")).forEach((k, i) => f(k, n.kids[i]));
    const ts = textsIn(e), len = n.src.end - n.src.start;
    all.push(...ts);
    if (!len) return filler.push(...ts);
    for (let i = 0; i < len; i++) { of.set(n.src.start + i, ts.length === len ? [ts[i]] : ts); unit.set(n.src.start + i, ts); }
  })(el, node);
  return { of, all, filler, unit };
}
const lo = (v) => (isAbs(v) ? v.lo : v), hi = (v) => (isAbs(v) ? v.hi : v);
function pointing(row, tree) {
  ob("pointing at and around the symbols of " + row + " drawn from left to right", world(false), (w) => {
    w.layout = null;
    const { res, node, ind, el: root } = rendered(w, tree);
    const order = leftToRight(w, w.iterate(method(w, root, "getElements")));
    const carets = [], fill = new Set();
    for (const [at, n] of rowsOf(node)) {
      const el = method(w, res, "getElement", ind(at));
      // what stands for nothing is drawn wherever there is room: next to it, the place of a caret has no single answer
      for (const t of shownTokens(w, el, n, order).filler) [t - 1, t, t + 1].forEach((k) => fill.add(k));
      for (let o = n.src.start; o <= n.src.end; o++) { const c = method(w, el, "getCaretPosition", o); carets.push({ at: JSON.stringify(at), o, x: w.get(c, "x"), y: w.get(c, "y") }); }
    }
    const span = (v, p) => { const a = lo(v) - p, b = hi(v) - p; return a <= 0 && b >= 0 ? [0, Math.max(-a, b)] : [Math.min(Math.abs(a), Math.abs(b)), Math.max(Math.abs(a), Math.abs(b))]; };
    const all = 100 * order.length, points = [[-500, 50], [all + 500, all - 50], [all / 2, -700], [all / 2, all + 700]];
    order.forEach((t, k) => { if (!fill.has(k)) for (const x of [100 * k + 4, 100 * k + 17, 100 * k + 83, 100 * k + 96]) points.push([x, 100 * k + 50]); });
    for (const [x, y] of points) {
      const p = method(w, res, "getLayoutPosition", w.obj({ x, y }));
      const at = JSON.stringify(w.iterate(w.get(p, "indices")).map((r) => [w.get(r, "0"), w.get(r, "1")])), o = w.get(p, "offset");
      const far = (c) => { const [a, b] = span(c.x, x), [e, f] = span(c.y, y); return [Math.hypot(a, e), Math.hypot(b, f)]; };
      const hit = carets.find((c) => c.at === at && c.o === o);
      need(hit, `pointing at ${x}, ${y} leads to the place ${o} of the row ${at}, which does not exist`, w);
      const best = carets.reduce((m, c) => (far(c)[1] < far(m)[1] ? c : m));
      need(far(hit)[0] <= far(best)[1] + 1, `pointing at ${x}, ${y} leads to the place ${o} of the row ${at}, although the place ${best.o} of the row ${best.at} is nearer`, w);
    }
  }, 20000);
}
function places(row, tree) {
  ob("carets and selections between the symbols of " + row + " drawn from left to right", world(false), (w) => {
    w.layout = null;
    const { res, node, ind, el: root } = rendered(w, tree);
    const order = leftToRight(w, w.iterate(method(w, root, "getElements")));
    for (const [at, n] of rowsOf(node)) {
      const el = method(w, res, "getElement", ind(at));
      const { of, all, filler, unit } = shownTokens(w, el, n, order);
      const { start, end } = n.src, zone = [];
      for (let o = start; o <= end; o++) {
        const before = [], after = [];
        for (let k = start; k < end; k++) (k < o ? before : after).push(...of.get(k));
        const from = before.length ? 100 * Math.max(...before) + 80 : 100 * Math.min(...all, ...(all.length ? [] : [0])) - 20;
        const to = after.length ? 100 * Math.min(...after) + 20 : 100 * Math.max(...all, ...(all.length ? [] : [0])) + 120;
        zone[o] = [from, to];
        const x = w.get(method(w, el, "getCaretPosition", o), "x");
        need(lo(x) >= from && hi(x) <= to, `the caret at ${o} of the row at ${JSON.stringify(at)} is not between ${o > start ? "symbol " + (o - 1) : "the start"} and ${o < end ? "symbol " + o : "the end"}`, w);
      }
      const far = job.selections.includes(row);
      for (let a = start; a <= end; a++) for (let b = start; b <= end; b++) {
        if (a === b || !far && Math.abs(a - b) > 1) continue;
        const [l, r] = a < b ? [a, b] : [b, a];
        const rect = w.get(method(w, res, "getViewportSelection", w.obj({ indices: ind(at), start: a, end: b })), "rect");
        const x = w.get(rect, "x"), x2 = w.arith("+", x, w.get(rect, "width")), y = w.get(rect, "y"), y2 = w.arith("+", y, w.get(rect, "height"));
        const name = `the selection from ${a} to ${b} of the row at ${JSON.stringify(at)}`;
        need(lo(x) >= zone[l][0] && hi(x) <= zone[l][1], `${name} does not begin where it should`, w);
        need(lo(x2) >= zone[r][0] - 20 && hi(x2) <= zone[r][1] + 20, `${name} does not end where it should`, w);
        const sel = [], whole = [];
        for (let k = l; k < r; k++) { sel.push(...of.get(k)); whole.push(...unit.get(k)); }
        if (!sel.length) continue;
        whole.push(...filler);
        need(lo(y) >= 100 * Math.min(...whole) - 20 && hi(y) <= 100 * Math.min(...sel) + 20, `${name} does not start at the top of what it selects`, w);
        need(lo(y2) >= 100 * Math.max(...sel) + 70 && hi(y2) <= 100 * Math.max(...whole) + 110, `${name} does not reach down to the bottom of what it selects`, w);
      }
    }
  }, 3000);
}
// ---- V05: MathML becomes a formula tree
const E = (tag, ...kids) => ({ tag, kids: kids.filter((k) => typeof k !== "string"), text: kids.filter((k) => typeof k === "string").join("") });
function dom(w, e, upper) {
  const n = new DomNode(w, "element", upper ? e.tag.toUpperCase() : e.tag);
  for (const k of e.kids) { const c = dom(w, k, upper); c.parentNode = n; n.kids.push(c); }
  if (e.text) { const t = new DomNode(w, "text", "#text"); t.text = e.text; t.parentNode = n; n.kids.push(t); }
  return n;
}
const xml = (e) => `<${e.tag}>${e.text}${e.kids.map(xml).join("")}</${e.tag}>`;
const graphemes = (s) => Array.from(new Intl.Segmenter("en", { granularity: "grapheme" }).segment(s), (x) => x.segment);
const CH = { mfrac: 2, mroot: 2, msub: 2, msup: 2, munder: 2, mover: 2, msubsup: 3, munderover: 3 };
const content = (e) => e.kids.map(content).join("") + e.text;
/** What an element means: a list of tokens, or null when it has to be reported. */
function meaning(e) {
  const m = e.kids.map(meaning), bad = m.some((x) => x === null);
  const syms = (t) => graphemes(t.trim()).map((g) => g.normalize("NFD"));
  const box = (kind, rows, width) => [{ kind, rows, width }];
  switch (e.tag) {
    case "math": case "mrow": case "mtd": return bad ? null : m.flat();
    case "semantics": return e.kids.length ? m[0] : null;
    case "mtext": case "ms": return ['"', ...syms(content(e)), '"'];
    case "mi": case "mn": case "mo": return syms(content(e));
    case "mstyle": return [];
    case "msqrt": return bad ? null : box("Root", [["2"], m.flat()], 2);
    case "mtable": {
      if (!e.kids.every((r) => r.tag === "mtr" && r.kids.every((c) => c.tag === "mtd"))) return null;
      const width = Math.max(0, ...e.kids.map((r) => r.kids.length));
      const cells = e.kids.flatMap((r) => Array.from({ length: width }, (_, i) => (i < r.kids.length ? meaning(r.kids[i]) : [])));
      return width === 0 || cells.some((c) => c === null) ? null : box("Table", cells, width);
    }
  }
  if (!(e.tag in CH) || e.kids.length !== CH[e.tag] || bad) return null;
  if (e.tag === "mfrac") return box("Fraction", m, 1);
  if (e.tag === "mroot") return box("Root", [m[1], m[0]], 2);
  const sub = (r) => box("Sub", [r], 1), sup = (r) => box("Sup", [r], 1);
  if (CH[e.tag] === 3) return [...m[0], ...sub(m[1]), ...sup(m[2])];
  return [...m[0], ...(e.tag === "msub" || e.tag === "munder" ? sub : sup)(m[1])];
}
/** The value of the program as tokens; fails when it is not a row the core accepts. */
function tokens(w, row, at, text = () => false) {
  need(row instanceof Obj && w.has(row, "values") && w.get(row, "values") instanceof Arr, `${at} is not a row: ${w.show(row)}`, w);
  need(w.keysOf(row).join() === "values", `${at} has the fields ${w.keysOf(row)}`, w);
  return w.get(row, "values").items.map((n, i) => {
    const here = `${at}, element ${i}`;
    need(n instanceof Obj && w.keysOf(n).length === 1, `${here} is not an input node: ${w.show(n)}`, w);
    if (w.has(n, "Symbol")) { const s = w.get(n, "Symbol"); need(typeof s === "string" || text(s), `${here}: a symbol that is not text`, w); return s; }
    need(w.has(n, "Container"), `${here} is neither symbol nor container: ${w.show(n)}`, w);
    const c = w.iterate(w.get(n, "Container")), g = c[1];
    need(c.length === 2 && ["Fraction", "Root", "Sup", "Sub", "Table"].includes(c[0]), `${here} is a container of the kind ${w.show(c[0])}`, w);
    const rows = w.iterate(w.get(g, "values")).map((r, j) => tokens(w, r, `${here}, row ${j}`, text)), width = w.get(g, "width");
    need(Number.isInteger(width) && width >= 1 && rows.length >= 1 && rows.length % width === 0, `${here}: ${c[0]} with ${rows.length} cells and the width ${width}`, w);
    const size = { Fraction: [2, 1], Root: [2, 2], Sup: [1, 1], Sub: [1, 1] }[c[0]];
    need(!size || (rows.length === size[0] && width === size[1]), `${here}: ${c[0]} with ${rows.length} cells and the width ${width}`, w);
    return { kind: c[0], rows, width };
  });
}
/** What the conversion of an arbitrary element may yield (checked of every conversion, so this is an induction over the tree). */
const FORMS = ["row of two", "empty row", "node", "array of two", "empty array", "row in an array"];
function formOf(w, id, form) {
  const node = (k) => { const o = w.obj({ Symbol: `<${id}${k}>` }); return o; };
  const row = (...n) => w.obj({ values: w.arr(n) });
  return [() => row(node("a"), node("b")), () => row(), () => node("a"), () => w.arr([node("a"), node("b")]), () => w.arr([]), () => w.arr([row(node("a")), node("b")])][form]();
}
const FORM_TOKENS = (id, form) => [[`<${id}a>`, `<${id}b>`], [], [`<${id}a>`], [`<${id}a>`, `<${id}b>`], [], [`<${id}a>`, `<${id}b>`]][form];
function v05() {
  const file = job.file ?? "src/mathml/parsing.ts";
  const convert = (w) => { const f = w.import(file).get("fromElement"); if (!(f instanceof Fn)) throw new Undecided("fromElement is gone"); return f; };
  /** One element with arbitrary children (the conversion of a child is any of FORMS) and an arbitrary text. */
  const abstract = (tag, n, outer, opts = {}) => ob(`<${tag}> with ${n} arbitrary ${n === 1 ? "child" : "children"} in <${outer}>${opts.noSegmenter ? ", without a segmenter" : ""}`, world(false, opts), (w) => {
    const root = new DomNode(w, "element", outer), el = tag === outer ? root : new DomNode(w, "element", tag);
    if (el !== root) { el.parentNode = root; root.kids.push(el); }
    const text = new Abs("str", "the text"); el.absText = text;
    const forms = [];
    for (let i = 0; i < n; i++) { const c = new DomNode(w, "element", "an arbitrary element"); c.opaque = i; c.parentNode = el; el.kids.push(c); }
    const f = convert(w), asked = new Set();
    w.opts.hook = (w2, g, t, a) => {
      const d = a[0];
      if (!(d instanceof DomNode) || d.opaque === undefined) return null;
      if (!w.activeNodes.includes(g.node)) return null;      // only the recursive call is summarised
      asked.add(d.opaque);
      forms[d.opaque] ??= w.choose(FORMS.length, true);
      return { v: formOf(w, "c" + d.opaque, forms[d.opaque]) };
    };
    try {
      const r = w.call(f, undefined, [root]);
      const errors = w.iterate(w.get(r, "errors"));
      // the meaning, with the children's meanings as given
      const kid = (i) => FORM_TOKENS("c" + i, forms[i] ?? 0);
      const spec = { tag, kids: Array.from({ length: n }, (_, i) => ({ opaque: i })), text: "" };
      const want = abstractMeaning(w, spec, kid, text);
      const got = tokens(w, w.get(r, "root"), "the formula", (s) => isAbs(s) && s.kind === "str");
      if (want === null) need(errors.length > 0, `nothing is reported for <${tag}> with ${n} children`, w);
      else {
        need(errors.length === 0, `an error is reported for <${tag}> with ${n} children`, w);
        need(sameTokens(got, want), `<${tag}> with children that yield ${forms.map((x) => FORMS[x]).join(", ") || "nothing"} becomes ${w.show(w.get(r, "root"), 8)} instead of ${JSON.stringify(want, (k, v) => (isAbs(v) ? `<${v.why}>` : v))}`, w);
      }
    } finally { w.opts.hook = null; }
  }, 20000);
  const tags = ["mrow", "mtd", "semantics", "mtext", "ms", "mi", "mn", "mo", "mfrac", "msqrt", "mroot", "msub", "msup", "msubsup", "munder", "mover", "munderover", "mstyle", "mspace", "unknown", "MFRAC", "MROOT", "MSUBSUP"];
  for (const n of [0, 1, 2, 3]) { abstract("math", n, "math"); for (const t of tags) abstract(t, n, "math"); }
  for (const t of ["mtext", "ms", "mi", "mn", "mo"]) abstract(t, 0, "math", { noSegmenter: true });
  for (const t of ["mfrac", "msub"]) abstract(t, 4, "math");
  // tables: rows of arbitrary cells (a cell is a <mtd> with one arbitrary child)
  const sizes = [];
  for (let a = 0; a <= 2; a++) { sizes.push([a]); for (let b = 0; b <= 2; b++) sizes.push([a, b]); }
  sizes.push([], [3, 1], [1, 3], [1, 0, 1], [0, 1, 1], [1, 1, 1]);
  for (const sz of sizes) ob(`<mtable> with rows of ${sz.join(", ") || "no"} arbitrary cells`, world(false), (w) => {
    const mk = (tag, p) => { const d = new DomNode(w, "element", tag); d.parentNode = p; if (p) p.kids.push(d); return d; };
    const root = mk("math", null), table = mk("mtable", root), forms = [];
    let id = 0;
    for (const k of sz) { const r = mk("mtr", table); for (let i = 0; i < k; i++) { const c = mk("mtd", r); const o = mk("an arbitrary element", c); o.opaque = id++; } }
    w.opts.hook = (w2, g, t, a) => {
      const d = a[0];
      if (!(d instanceof DomNode) || d.opaque === undefined || !w.activeNodes.includes(g.node)) return null;
      forms[d.opaque] ??= sz.length > 1 && d.opaque > 0 ? (d.opaque * 2 + 1) % FORMS.length : w.choose(FORMS.length, true);
      return { v: formOf(w, "c" + d.opaque, forms[d.opaque]) };
    };
    try {
      const r = w.call(convert(w), undefined, [root]);
      const errors = w.iterate(w.get(r, "errors")), got = tokens(w, w.get(r, "root"), "the formula");
      const width = Math.max(0, ...sz);
      if (!width) return need(errors.length > 0, "nothing is reported for a table without cells", w);
      let next = 0;
      const cells = sz.flatMap((k) => { const r = Array.from({ length: width }, (_, i) => (i < k ? FORM_TOKENS("c" + (next + i), forms[next + i] ?? 0) : [])); next += k; return r; });
      const want = [{ kind: "Table", rows: cells, width }];
      need(errors.length === 0 && sameTokens(got, want), `a table with rows of ${sz} cells becomes ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`, w);
    } finally { w.opts.hook = null; }
  }, 20000);
  // constant propagation through closed elements, for what the summary above leaves out: nesting and texts
  const check = (e, opts = {}) => ob(xml(e) + (opts.noSegmenter ? " without a segmenter" : "") + (opts.upper ? " in upper case" : ""), world(false, opts), (w) => {
    const r = w.call(convert(w), undefined, [dom(w, e, opts.upper)]);
    const errors = w.iterate(w.get(r, "errors")), got = tokens(w, w.get(r, "root"), "the formula"), want = meaning(e);
    if (want === null) need(errors.length > 0, `nothing is reported for ${xml(e)}`, w);
    else {
      need(errors.length === 0, `an error is reported for ${xml(e)}`, w);
      need(JSON.stringify(got) === JSON.stringify(want), `${xml(e)} becomes ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`, w);
    }
  });
  const mi = (t) => E("mi", t), math = (...k) => E("math", ...k);
  const forms = [mi("x"), mi("yz"), E("mrow", mi("u"), mi("v")), E("mfrac", mi("p"), mi("q")), E("msub", mi("b"), mi("i")), E("mstyle"), E("mi"), E("mtext", "t"), E("mtable", E("mtr", E("mtd", mi("c")))), E("nope")];
  for (const t of ["mfrac", "msqrt", "mroot", "msub", "msup", "msubsup", "munder", "mover", "munderover", "mrow", "semantics"]) for (const a of forms) { check(math(E(t, a, mi("y")))); check(math(E(t, mi("y"), a, ...(CH[t] === 3 ? [a] : [])))); }
  check(math(mi("a"), E("msubsup", mi("b"), mi("c"), mi("e")), mi("d")), { upper: true });
  for (const s of ["é", "e\u0301", "👩‍👩‍👧", "12.5", " a b ", "\n x \n", "lim", "\""]) for (const t of ["mi", "mtext"]) check(math(E(t, s)));
  check(math(E("mtable", E("mtr", E("mtd", mi("a"))), E("mi", "x"))));
  check(math(E("mtable", E("mtr", E("mi", "x")))));
}
function sameTokens(a, b) {
  if (isAbs(a) || isAbs(b)) return a === b;
  if (Array.isArray(a) || Array.isArray(b)) return Array.isArray(a) && Array.isArray(b) && a.length === b.length && a.every((x, i) => sameTokens(x, b[i]));
  if (a && b && typeof a === "object" && typeof b === "object") return a.kind === b.kind && a.width === b.width && sameTokens(a.rows, b.rows);
  return a === b;
}
function abstractMeaning(w, e, kid, text) {
  const norm = (g) => w.call(w.get(g, "normalize"), g, ["NFD"]), trimmed = () => w.call(w.get(text, "trim"), text, []);
  const syms = () => w.graphemes(trimmed()).map(norm);
  const k = e.kids.map((c) => kid(c.opaque)), box = (kind, rows, width) => [{ kind, rows, width }];
  const t = e.tag.toLowerCase();
  switch (t) {
    case "math": case "mrow": case "mtd": return k.flat();
    case "semantics": return k.length ? k[0] : null;
    case "mtext": case "ms": return ['"', ...syms(), '"'];
    case "mi": case "mn": case "mo": return syms();
    case "mstyle": return [];
    case "msqrt": return box("Root", [["2"], k.flat()], 2);
  }
  if (!(t in CH) || k.length !== CH[t]) return null;
  if (t === "mfrac") return box("Fraction", k, 1);
  if (t === "mroot") return box("Root", [k[1], k[0]], 2);
  const sub = (r) => box("Sub", [r], 1), sup = (r) => box("Sup", [r], 1);
  if (CH[t] === 3) return [...k[0], ...sub(k[1]), ...sup(k[2])];
  return [...k[0], ...(t === "msub" || t === "munder" ? sub : sup)(k[1])];
}
const v06_ = () => v06({ job, world, ob, need, syntax, leftToRight, shownTokens, method });
({ V01: v01, V03: v03, V04: v04, V05: v05, V06: v06_ })[job.property]();
fs.writeFileSync(process.argv[3], JSON.stringify({ results, visited: [...visited].sort() }));
