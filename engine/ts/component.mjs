// V06: the editor element.  What it asks of the core for every gesture, and what it shows afterwards.
import { Obj, Arr, Fn, Abs, fin, isAbs, Mismatch, Undecided, Throw } from "./interp.mjs";
import { DomNode } from "./globals.mjs";

const FILE = "src/component/math-editor.ts", PKG = "aftermath-core/pkg";
const lo = (v) => (isAbs(v) ? v.lo : v), hi = (v) => (isAbs(v) ? v.hi : v);
const lit = (why) => { const t = new Abs("str", why); t.lit = true; return t; };
const QUERIES = /^(get_|copy$|free$)/;
/** Operations after which the formula may be a different one. */
const QUIET = new Set(["move_caret", "select_with_caret", "select_all", "start_selection", "extend_selection", "finish_selection", "focus", "unfocus", "open_autocomplete", "move_in_autocomplete"]);

export function v06({ job, world, ob, need, syntax, leftToRight, shownTokens, method }) {
  const treeOf = (row) => { const t = job.trees.find((x) => x.row === row); if (!t) throw new Undecided("no tree for " + row); return t.tree; };
  /** The tree of a version of the formula: its symbols tell the versions apart, its length differs from the one before. */
  const version = (rows, v) => { let i = 0; const f = (t) => ({ ...t, symbols: t.symbols?.map((s) => `v${v}s${i++};`), children: t.children?.map(f) }); return f(treeOf(rows[v % rows.length])); };
  const symbols = (t) => [...(t.symbols ?? []), ...(t.children ?? []).flatMap(symbols)];

  function open(w, opts = {}) {
    const rows = opts.rows ?? job.plain;
    const s = { w, calls: [], formula: 0, caret: 0, focused: null, clipboard: [] };
    const pkg = () => {
      const construct = (a) => {
        const o = new Obj(w.protos.object);
        for (const name of job.methods) o.props.set(name, { v: w.fn(name, (t, args) => {
          if (name === "get_syntax_tree") { s.tree = version(rows, s.formula); return syntax(w, s.tree); }
          if (name === "get_caret") return w.from(s.carets());
          if (name === "get_input_tree") return w.obj({ values: w.arr([]) });
          if (name === "copy") { s.calls.push([name, ...args]); return (s.copied = new Abs("str", "the serialised selection")); }
          if (QUERIES.test(name)) return undefined;
          if (name === "paste" && w.choose(2, true) === 1) { s.failed = true; s.calls.push([name, ...args]); throw new Throw("not a formula", w.where()); }
          s.calls.push([name, ...args]);
          s.caret++;
          if (!QUIET.has(name)) s.formula++;
          return ["move_caret", "start_selection", "extend_selection", "finish_selection", "select_all", "focus", "unfocus", "insert_at_caret", "paste", "splice_at_range"].includes(name) ? undefined : new Abs("bool", "result of " + name);
        }), hidden: true });
        s.made = (s.made ?? 0) + 1;
        return o;
      };
      const any = (name) => new Fn(w, name, () => undefined, () => { const o = new Obj(w.protos.object); o.props.set("add_module", { v: w.fn("add_module", () => undefined) }); return o; });
      const out = { default: w.fn("init", () => undefined), MathEditorBindings: new Fn(w, "MathEditorBindings", () => w.raise("not a function"), construct) };
      out.ParseModulesBindings = new Fn(w, "ParseModulesBindings", () => undefined, () => { const o = new Obj(w.protos.object);
        o.props.set("get_built_in", { v: w.fn("get_built_in", () => w.obj({})) });
        o.props.set("get_syntax_node_name_map", { v: w.fn("get_syntax_node_name_map", () => w.obj({ values: w.arr(job.names.map((n, i) => w.arr([w.arr(n.split("::")), i]))) })) });
        return o; });
      out.ParseModulesCreator = new Obj(w.protos.object);
      for (const n of job.creators) out.ParseModulesCreator.props.set(n, { v: w.fn(n, () => w.obj({})) });
      out.ParseModuleCollectionBindings = any("ParseModuleCollectionBindings"); out.MathParserBindings = any("MathParserBindings");
      return out;
    };
    w.opts.modules = { [PKG]: pkg };
    s.carets = opts.carets ?? (() => { const n = version(rows, s.formula).end; return [{ Row: { row_indices: [], start: s.caret % (n + 1), end: (s.caret * 2 + 1) % (n + 1) } }]; });
    const C = w.import(FILE).get("MathEditor");
    if (!(C instanceof Fn)) throw new Undecided("MathEditor is gone");
    // the conversion of MathML is V05's business: here it yields something that only depends on the element
    const imported = new Map();
    w.opts.hook = (w2, f, t, a) => {
      const src = f.node?.getSourceFile().fileName ?? "";
      if (!src.endsWith("src/mathml/parsing.ts") || !(a[0] instanceof DomNode)) return null;
      const e = a[0];
      if (!imported.has(e)) imported.set(e, { values: w.arr([w.obj({ Symbol: "imported" })]), e });
      const errors = w.choose(2, true) ? [w.error("unsupported")] : [];
      return { v: w.obj({ root: w.obj({ values: imported.get(e).values }), errors: w.arr(errors) }) };
    };
    s.imported = imported;
    w.layout = (n) => layoutOf(s, n);
    const P = w.protos.node.props;
    P.set("focus", { v: w.fn("focus", (t) => { s.focused = t; }), hidden: true });
    s.host = w.construct(C, []);
    if (!(s.host instanceof DomNode) || !s.host.shadow) throw new Undecided("the editor has no shadow root");
    need(s.made === 1, `the editor makes ${s.made ?? 0} editors in the core`, w);
    s.host.connected = true;
    flush(s);
    return s;
  }
  const visit = (n, f) => { if (n.tag === "style") return; f(n); n.kids.forEach((k) => visit(k, f)); };
  const all = (s, p) => { const out = []; visit(s.host.shadow, (n) => { if (p(n)) out.push(n); }); return out; };
  // from left to right and downwards; or tables in columns, whose upper or lower rows are the wider ones
  const placing = (s) => (k, t, order) => {
    const straight = { x: [100 * k + 10, 100 * k + 90], y: [100 * k + 10, 100 * k + 90] };
    if (!s.columns) return straight;
    const up = (n, tag) => { for (; n; n = n.parentNode) if (n.tag === tag) return n; return null; };
    const tr = up(t, "mtr"), table = tr && tr.parentNode;
    if (!table) return straight;
    const inside = order.filter((m) => { for (let q = m; q; q = q.parentNode) if (q === table) return true; return false; }), f = order.indexOf(inside[0]), h = table.kids.length, n = inside.length / h;
    if (!Number.isInteger(n)) return straight;
    const i = table.kids.indexOf(tr), j = inside.indexOf(t) - i * n, d = 6 * (s.columns > 0 ? i : h - 1 - i);
    return { x: [100 * (f + j * h) + 10 + d, 100 * (f + j * h) + 90 - d], y: [100 * (f + i * n) + 10, 100 * (f + i * n) + 90] };
  };
  function layoutOf(s, n) {
    const root = s.host?.shadow;
    if (!root) return null;
    let p = n; while (p && p !== root) p = p.parentNode;
    if (!p) return null;                                     // not in the document: nowhere in particular
    const w = s.w, els = root.kids.filter((k) => k.tag !== "style");
    // what is placed over the formula begins wherever the editor is on the page
    const hasText = (m) => m.kind === "text" || m.kids.some(hasText);
    const css = (m, k) => (m.tag ? w.get(w.get(m, "style"), k) : undefined), absolute = (m) => css(m, "position") === "absolute" || m.classes?.has("caret");
    const above = (m) => { for (let q = m.parentNode; q && q !== root; q = q.parentNode) if (absolute(q)) return q; return null; };
    const holder = n.kids && !hasText(n) && (absolute(n) ? n : above(n));
    if (holder) {
      const outer = above(holder), base = outer && w.call(w.get(outer, "getBoundingClientRect"), outer, []);
      const side = (k) => { const v = css(holder, k); if (!base || v === undefined) return fin("origin", -2000, 2000); const d = isAbs(v) ? v.num : parseFloat(v); return d === undefined || Number.isNaN(d) ? fin("origin", -2000, 2000) : w.arith("+", w.get(base, k), d); };
      const x = side("left"), y = side("top");
      return { left: x, right: x, top: y, bottom: y };
    }
    leftToRight(w, els, placing(s));
    const r = w.layout(n);
    w.layout = (m) => layoutOf(s, m);
    if (!r) return null;
    // one place for every text, however often it is asked for
    s.places ??= new Map();
    return r;
  }
  function flush(s) { const w = s.w; for (let i = 0; i < w.timers.length; i++) { const f = w.timers[i]; if (f) w.call(f, undefined, []); if (i > 200) throw new Undecided("endless timers"); } w.timers.length = 0; }
  /** An event on a node and on what surrounds it.  Returns what was asked of the core meanwhile. */
  function fire(s, node, type, props = {}, later = false) {
    const w = s.w;
    const ev = w.obj({ type, target: node, isTrusted: true, ...props });
    let stop = false;
    const d = (n, f) => ev.props.set(n, { v: w.fn(n, f), hidden: true });
    d("preventDefault", () => { ev.prevented = true; }); d("stopPropagation", () => { stop = true; }); d("stopImmediatePropagation", () => { stop = true; });
    s.failed = false;
    if (!later) s.calls = [];
    for (let n = node; n && !stop; n = n.parentNode ?? n.host) for (const f of [...(n.listeners?.get(type) ?? [])]) {
      try { w.call(f, n, [ev]); } catch (x) { if (!(x instanceof Throw) || !s.failed) throw x; }
    }
    if (!later) flush(s);
    return ev;
  }
  const same = (w, a, b) => {
    if (a === b) return true;
    if (Array.isArray(b)) return a instanceof Arr && a.items.length === b.length && b.every((x, i) => same(w, a.items[i], x));
    if (b && typeof b === "object" && !isAbs(b) && !(b instanceof Obj)) return a instanceof Obj && Object.keys(b).every((k) => same(w, w.get(a, k), b[k])) && w.keysOf(a).every((k) => k in b);
    return false;
  };
  function asked(s, want, what) {
    const w = s.w, said = (c) => `${c[0]}(${c.slice(1).map((x) => (Array.isArray(x) || (x && typeof x === "object" && !isAbs(x) && !(x instanceof Obj)) ? JSON.stringify(x, (k, v) => (isAbs(v) ? `<${v.why}>` : v)) : w.show(x))).join(", ")})`;
    const ok = s.calls.length === want.length && want.every((c, i) => s.calls[i][0] === c[0] && c.slice(1).every((a, j) => (typeof a === "function" ? a(s.calls[i][j + 1]) : same(w, s.calls[i][j + 1], a))) && s.calls[i].length === c.length);
    need(ok, `${what} asks the core for ${s.calls.map(said).join(", ") || "nothing"} instead of ${want.map(said).join(", ") || "nothing"}`, w);
  }
  /** The formula and the carets on the screen are those of the core's current state. */
  function current(s, what) {
    const w = s.w, now = version(job.rowsOf ?? s.rows ?? job.plain, s.formula), want = symbols(now).join("");
    let text = "";
    visit(s.host.shadow, (n) => { if (n.kind === "text") text += isAbs(n.text) ? "?" : n.text; });
    const got = (text.match(/v\d+s\d+;/g) ?? []).join("");
    need(got === want, `after ${what} the editor shows ${JSON.stringify(got)} instead of the current formula ${JSON.stringify(want)}`, w);
    drawn(s, what);
  }
  const px = (w, el, k, what) => { const v = w.get(w.get(el, "style"), k); if (isAbs(v) && v.num && v.parts[1].trim() === "px" && v.parts[0].trim() === "") return v.num; if (typeof v === "string" && /^-?[\d.]+px$/.test(v)) return parseFloat(v); if (v === undefined) throw new Mismatch(`${what} has no ${k}`, []); throw new Undecided(`${what}: its ${k} is ${w.show(v)}`); };
  function drawn(s, what) {
    const w = s.w, carets = s.carets();
    const rows = carets.filter((c) => c.Row).map((c) => c.Row), grids = carets.filter((c) => c.Grid).map((c) => c.Grid);
    const marks = all(s, (n) => n.classes.has("caret") && w.get(w.get(n, "style"), "display") !== "none"), sels = all(s, (n) => n.classes.has("caret-selection"));
    need(marks.length === rows.length, `after ${what} there are ${marks.length} carets on the screen instead of ${rows.length}`, w);
    const wide = rows.filter((r) => r.start !== r.end);
    need(sels.length === wide.length + grids.length, `after ${what} there are ${sels.length} highlighted selections instead of ${wide.length + grids.length}`, w);
    const order = leftToRight(w, s.host.shadow.kids.filter((k) => k.tag !== "style"), placing(s)), box = (k) => placing(s)(k, order[k], order);
    w.layout = (m) => layoutOf(s, m);
    const textOf = new Map(order.map((n, i) => [isAbs(n.text) ? "?" : n.text, i]));
    const origin = (el, axis) => { const p = el.parentNode, r = w.call(w.get(p, "getBoundingClientRect"), p, []); return w.get(r, axis); };
    // where a place of a row may be drawn: between its neighbours
    const at = (t, ix) => ix.reduce((n, [i, j]) => { const f = (m) => (m.kind === "rows" && m.start <= i && i < m.end ? m : (m.children ?? []).filter((c) => m.kind !== "rows" && c.start <= i && i < c.end).map(f).find(Boolean)); return f(n).children[j]; }, t);
    const zone = (ix, o) => {
      const n = at(s.tree, ix), tok = new Map();
      (function f(m) { if (m.kind === "leaf") { m.symbols.forEach((x, i) => tok.set(m.start + i, [x])); } else if (m.kind === "rows") tok.set(m.start, symbols(m)); else m.children.forEach(f); })(n);
      const places = (p) => [...tok].filter(([k]) => p(k)).flatMap(([, xs]) => xs.map((x) => textOf.get(x)));
      const before = places((k) => k < o), after = places((k) => k >= o);
      if ([...before, ...after].includes(undefined)) throw new Mismatch(`after ${what} part of the formula is not on the screen`, []);
      return [Math.max(...before.map((k) => box(k).x[1] - 20)), Math.min(...after.map((k) => box(k).x[0] + 20))];
    };
    rows.forEach((r, i) => {
      const x = w.arith("+", px(w, marks[i], "left", "the caret"), origin(marks[i], "left")), [a, b] = zone(r.row_indices, r.end);
      const own = symbols(at(s.tree, r.row_indices)).map((z) => textOf.get(z)).filter((k) => k !== undefined).map((k) => box(k).y);
      const y = w.arith("+", px(w, marks[i], "top", "the caret"), origin(marks[i], "top"));
      need(!own.length || (lo(y) >= Math.min(...own.map((v) => v[0])) - 20 && hi(y) <= Math.max(...own.map((v) => v[1])) + 105), `after ${what} the caret of ${JSON.stringify(r)} is not drawn at the height of its row`, w);
      need(lo(x) >= a && hi(x) <= b, `after ${what} the caret of ${JSON.stringify(r)} is not drawn at the moving end of its selection`, w);
    });
    let k = 0;
    for (const c of carets) {
      if (c.Row && c.Row.start === c.Row.end) continue;
      const el = sels[k++];
      const x = w.arith("+", px(w, el, "left", "the selection"), origin(el, "left")), x2 = w.arith("+", x, px(w, el, "width", "the selection"));
      let a, b;
      if (c.Row) { const { row_indices: ix, start, end } = c.Row; a = zone(ix, Math.min(start, end)); b = zone(ix, Math.max(start, end)); }
      else {
        const { row_indices: ix, index, range } = c.Grid, cells = [];
        for (let q = range.start; q < range.end; q++) { const cx = q % range.width, s0 = range.start % range.width, e0 = (range.end - 1) % range.width; if (cx >= s0 && cx <= e0) cells.push(q); }
        const sy = cells.flatMap((q) => symbols(at(s.tree, [...ix, [index, q]]))).map((z) => textOf.get(z));
        const corners = [Math.min(...sy), Math.max(...sy)].map(box), edge = (k) => [[Math.min(...corners.map((c) => c[k][0])) - 30, Math.min(...corners.map((c) => c[k][0])) + 3], [Math.max(...corners.map((c) => c[k][1])) - 3, Math.max(...corners.map((c) => c[k][1])) + 30]];
        [a, b] = edge("x");
        const [ya, yb] = edge("y");
        const y = w.arith("+", px(w, el, "top", "the selection"), origin(el, "top")), y2 = w.arith("+", y, px(w, el, "height", "the selection"));
        need(lo(y) >= ya[0] && hi(y) <= ya[1] && lo(y2) >= yb[0] - 3 && hi(y2) <= yb[1] + 20, `after ${what} the selected cells ${JSON.stringify(c.Grid)} are not covered from top to bottom`, w);
      }
      need(lo(x) >= a[0] && hi(x) <= a[1], `after ${what} the highlight of ${JSON.stringify(c)} does not begin where the selection does`, w);
      need(lo(x2) >= b[0] - (c.Row ? 20 : 3) && hi(x2) <= b[1] + 20, `after ${what} the highlight of ${JSON.stringify(c)} does not end where the selection does`, w);
    }
  }
  const input = (s) => { const t = all(s, (n) => n.tag === "textarea" || n.tag === "input"); if (!t.length) throw new Undecided("no input element"); return t[0]; };
  const math = (s) => { const t = all(s, (n) => n.tag === "math"); if (!t.length) throw new Undecided("no math element"); return t[0]; };
  const is = (w, v, c) => w.strictEq(v, c) === true;
  const ready = (w, opts) => { const s = open(w, opts); w.call(w.get(s.host, "connectedCallback"), s.host, []); flush(s); current(s, "connecting"); return s; };
  const MODE = "Char";

  ob("the editor before and after it is put on a page", world(false), (w) => { ready(w); });
  ob("the editor in a development build", world(true), (w) => { ready(w); });
  for (const n of [1, 2]) ob(`${n === 1 ? "an arbitrary key" : "two arbitrary keys"}`, world(false), (w) => {
    const s = ready(w);
    for (let i = 0; i < n; i++) {
      const key = lit("the key"), code = lit("the key's code"), ctrl = w.choose(2, true) === 1;
      fire(s, input(s), "keydown", { key, code, ctrlKey: ctrl, shiftKey: false, altKey: false, metaKey: false, repeat: false });
      const arrow = ["Up", "Down", "Left", "Right"].find((d) => is(w, key, "Arrow" + d));
      if (ctrl && arrow) { if (n === 1) current(s, "a key"); continue; }
      const want = arrow ? [["move_caret", arrow, MODE]] : ctrl && is(w, code, "KeyZ") ? [["undo"]] : ctrl && is(w, code, "KeyY") ? [["redo"]] : [];
      asked(s, want, `the key ${arrow ? "Arrow" + arrow : want.length ? (want[0][0] === "undo" ? "Ctrl+Z" : "Ctrl+Y") : "that has no meaning"}`);
      current(s, "a key");
    }
  }, 20000);
  const wanted = (w, type, data) => {
    if (is(w, type, "deleteContentBackward") || is(w, type, "deleteWordBackward")) return [["remove_at_caret", "Left", MODE]];
    if (is(w, type, "deleteContentForward") || is(w, type, "deleteWordForward")) return [["remove_at_caret", "Right", MODE]];
    if (is(w, type, "insertText") && data !== null) return [["insert_at_caret", w.graphemes(data)]];
    return [];
  };
  ob("an arbitrary input", world(false), (w) => {
    const s = ready(w), type = lit("the kind of input"), none = w.choose(2, true) === 1, data = none ? null : new Abs("str", "the typed text");
    fire(s, input(s), "beforeinput", { inputType: type, data });
    asked(s, wanted(w, type, data), "an input");
    current(s, "an input");
  }, 20000);
  for (const a of ["deleteContentBackward", "deleteContentForward", "insertText"]) for (const b of ["deleteContentBackward", "insertText"]) for (const flushed of [false, true])
    ob(`the inputs ${a} and ${b}${flushed ? "" : " in quick succession"}`, world(false), (w) => {
      const s = ready(w), d1 = a === "insertText" ? "x" : null, d2 = b === "insertText" ? "yz" : null;
      s.calls = [];
      fire(s, input(s), "beforeinput", { inputType: a, data: d1 }, true);
      if (flushed) { flush(s); current(s, "an input"); }
      fire(s, input(s), "beforeinput", { inputType: b, data: d2 }, true);
      flush(s);
      const one = (t, d) => (t === "insertText" ? ["insert_at_caret", [...d]] : ["remove_at_caret", t.endsWith("Backward") ? "Left" : "Right", MODE]);
      asked(s, [one(a, d1), one(b, d2)], `typing`);
      current(s, "typing");
    });
  for (const type of ["copy", "cut", "paste"]) for (const clip of [true, false]) ob(`${type} with${clip ? "" : "out"} a clipboard`, world(false), (w) => {
    const s = ready(w), put = [], json = w.choose(2, true) ? "" : new Abs("str", "copied formula"), text = new Abs("str", "copied text");
    if (isAbs(json)) { json.lit = true; w.memo.set("=#" + json.id + ",", false); }
    const board = w.obj({ setData: w.fn("setData", (t, a) => { put.push(a); }), getData: w.fn("getData", (t, [k]) => (k === "application/json" ? json : k === "text/plain" ? text : "")) });
    const ev = fire(s, input(s), type, { clipboardData: clip ? board : null });
    const kind = "JsonInputTree";
    if (!clip) asked(s, [], type + " without a clipboard");
    else if (type === "paste") asked(s, [["paste", json === "" ? text : json, kind]], "paste");
    else {
      asked(s, [["copy", kind], ...(type === "cut" ? [["remove_at_caret", "Range", MODE]] : [])], type);
      need(put.some(([k, v]) => k === "application/json" && v === s.copied), `${type} does not put the selection on the clipboard`, w);
      need(ev.prevented, `${type} lets the browser overwrite the clipboard`, w);
    }
    current(s, type);
  });
  // ---- the pointer
  const point = (s, o) => { const tops = s.tree.end; return o < tops ? { clientX: 100 * o + 14, clientY: 100 * o + 50 } : { clientX: 100 * o - 14, clientY: 100 * o - 50 }; };
  const pos = (o) => ({ row_indices: [], offset: o });
  const seqs = [["down 1", "up 1"], ["down 0", "move 2", "up 1"], ["down 2", "move 1", "move 0", "cancel 0"], ["move 1"], ["up 1"], ["cancel 2"], ["down 1", "up 1", "move 2", "up 0"], ["other down 1", "move 0"], ["down 0", "other up 1", "other move 1", "move 2"], ["down 1", "click 2", "up 1"], ["down 1", "click 3", "move 0", "up 0"], ["down 0", "click 1", "up 0"], ["click 2"],
    ["key", "down 1", "type", "move 0", "up 0"], ["type", "down 2", "up 2", "type", "down 0", "up 0"]];
  for (const seq of seqs) ob("the pointer: " + seq.join(", "), world(false), (w) => {
    const s = ready(w);
    let held = false;
    for (const step of seq) {
      if (step === "key") { fire(s, input(s), "keydown", { key: "ArrowLeft", code: "ArrowLeft", ctrlKey: false, shiftKey: false, altKey: false, metaKey: false }); current(s, step); continue; }
      if (step === "type") { fire(s, input(s), "beforeinput", { inputType: "insertText", data: "q" }); current(s, step); continue; }
      const other = step.startsWith("other "), [what, n] = step.replace("other ", "").split(" "), at = what === "click" ? 1 : +n;
      if (what === "down") s.focused = null;
      fire(s, math(s), what === "click" ? "mousedown" : "pointer" + what, { isPrimary: !other, pointerId: other ? 2 : 1, pointerType: "mouse", button: 0, detail: what === "click" ? +n : 0, ...point(s, at) });
      let want = [];
      if (other) want = [];
      else if (what === "down") { want = [["start_selection", pos(at), MODE]]; held = true; need(s.focused === input(s), "pressing the pointer does not focus the input", w); }
      else if (what === "move") want = held ? [["extend_selection", pos(at)]] : [];
      else if (what === "click") want = held && +n === 2 ? [["start_selection", pos(at), "Word"]] : held && +n === 3 ? [["start_selection", pos(at), "Line"]] : [];
      else { want = held ? [["extend_selection", pos(at)], ["finish_selection"]] : []; held = false; }
      asked(s, want, `"${step}" of the pointer`);
      current(s, `"${step}"`);
    }
  });
  // ---- the attribute
  for (const steps of [["some"], ["none"], ["some", "some"], ["type", "some"], ["some", "type", "none"], ["another attribute"]]) ob("the attribute: " + steps.join(", "), world(false), (w) => {
    const s = ready(w);
    let old = null;
    for (const step of steps) {
      if (step === "type") { fire(s, input(s), "beforeinput", { inputType: "insertText", data: "q" }); continue; }
      const v = step === "none" ? null : lit("the markup"), before = version(job.plain, s.formula).end, prev = new Set(s.imported.keys());
      if (isAbs(v)) w.memo.set("=#" + v.id + ",", false);
      s.calls = [];
      w.call(w.get(s.host, "attributeChangedCallback"), s.host, [step === "another attribute" ? "title" : "mathml", old, v]);
      flush(s);
      old = v;
      if (step === "another attribute") { asked(s, [], "another attribute"); continue; }
      const els = [...s.imported].filter(([e]) => !prev.has(e));
      need(els.length === 1 && (step === "none" ? typeof els[0][0].markup === "string" && /^<math>\s*<\/math>$/.test(els[0][0].markup) : els[0][0].markup === v), `what is imported is not what the attribute says: ${els.map(([e]) => w.show(e.markup))} for ${w.show(v)}`, w);
      asked(s, [["splice_at_range", { row_indices: [], start: 0, end: before }, (x) => x === els[0][1].values]], "the attribute");
      current(s, "the attribute");
    }
    const seen = w.get(w.import(FILE).get("MathEditor"), "observedAttributes");
    need(w.iterate(seen).includes("mathml"), "the attribute mathml is not observed", w);
  });
  // ---- carets wherever they may be
  for (const row of job.drawn) {
    const t = treeOf(row), places = [];
    (function f(n, ix) { places.push([ix, n.end]); const g = (m) => { if (m.kind === "rows") m.children.forEach((c, j) => f(c, [...ix, [m.start, j]])); else m.children?.forEach(g); }; g(n); })(t, []);
    const all_ = places.flatMap(([ix, n]) => Array.from({ length: n + 1 }, (_, a) => Array.from({ length: n + 1 }, (_, b) => ({ Row: { row_indices: ix, start: a, end: b } }))).flat());
    (function f(n, ix) { const g = (m) => { if (m.kind === "rows" && /Table/.test(m.name)) { const h = m.children.length; for (let a = 0; a < h; a++) for (let b = a; b < h; b++) if (a % m.width <= b % m.width) all_.push({ Grid: { row_indices: ix, index: m.start, range: { start: a, end: b + 1, width: m.width } } }); } if (m.kind !== "rows") m.children?.forEach(g); }; g(n); })(t, []);
    const lists = [...all_.map((c) => [c]), [all_[0], all_[all_.length - 1]], all_.slice(0, 3)];
    ob("carets and selections drawn in " + row, world(false), (w) => {
      const i = w.choose(lists.length, true);
      const s = open(w, { rows: [row], carets: () => lists[i] });
      s.rows = [row];
      if (/Table/.test(row)) s.columns = w.choose(3, true) - 1;
      w.call(w.get(s.host, "connectedCallback"), s.host, []); flush(s);
      current(s, "connecting");
    }, 3000);
  }
}
