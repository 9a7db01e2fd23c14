// What the standard library and the browser's document mean to the analysis.
import { World, Obj, Arr, Fn, MapV, SetV, Abs, Regex, fin, top, isAbs, Undecided, Throw } from "./interp.mjs";

World.prototype.makeGlobals = function () {
  const w = this, P = this.protos;
  P.object = new Obj(null);
  P.function = new Obj(P.object);
  for (const n of ["array", "map", "set", "regex", "iterator", "error", "node"]) P[n] = new Obj(P.object);
  const def = (o, name, f) => o.props.set(name, { v: new Fn(w, String(name), f), hidden: true });
  const cb = (f) => (...a) => w.call(f, undefined, a);
  const yes = (v) => w.truthy(v);
  const cls = (name, proto, construct) => { const f = new Fn(w, name, construct ? (t, a) => construct(a) : () => w.raise("not callable"), construct); f.props.set("prototype", { v: proto }); proto.props.set("constructor", { v: f, hidden: true }); return f; };
  const idx = (i, n, d) => { if (i === undefined) return d; if (isAbs(i)) throw new Undecided("unknown index"); i = Math.trunc(i) || 0; return i < 0 ? Math.max(0, n + i) : Math.min(i, n); };

  def(P.object, "hasOwnProperty", (t, [k]) => t instanceof Obj && t.props.has(w.key(k)));
  def(P.object, "toString", (t) => w.str(t));
  P.object.props.get("toString").v.node = undefined;
  def(P.function, "call", (t, [self, ...a]) => w.call(t, self, a));
  def(P.function, "apply", (t, [self, a]) => w.call(t, self, a ? w.iterate(a) : []));
  def(P.function, "bind", (t, [self, ...a]) => w.fn("bound", (_, b) => w.call(t, self, [...a, ...b])));

  // ---- arrays
  const A = P.array, I = (t) => { if (t instanceof Arr) return t.items; if (isAbs(t)) throw new Undecided("array method of " + t.why); return w.iterate(t); };
  const mut = (t) => { if (t.frozen) w.raise("Cannot change a frozen array"); return I(t); };
  def(A, "push", (t, a) => mut(t).push(...a));
  def(A, "pop", (t) => mut(t).pop());
  def(A, "shift", (t) => mut(t).shift());
  def(A, "unshift", (t, a) => mut(t).unshift(...a));
  def(A, "slice", (t, [s, e]) => { const x = I(t); return w.arr(x.slice(idx(s, x.length, 0), idx(e, x.length, x.length))); });
  def(A, "splice", (t, a) => { const x = mut(t); if (a.slice(0, 2).some(isAbs)) throw new Undecided("splice"); return w.arr(x.splice(...a)); });
  def(A, "concat", (t, a) => w.arr(I(t).concat(...a.map((v) => (v instanceof Arr ? v.items : isAbs(v) ? (() => { throw new Undecided("concat"); })() : [v])))));
  def(A, "map", (t, [f]) => w.arr(I(t).map((v, i) => cb(f)(v, i, t))));
  def(A, "filter", (t, [f]) => w.arr(I(t).filter((v, i) => yes(cb(f)(v, i, t)))));
  def(A, "forEach", (t, [f]) => { const x = I(t); for (let i = 0; i < x.length; i++) cb(f)(x[i], i, t); });
  def(A, "flatMap", (t, [f]) => w.arr(I(t).flatMap((v, i) => { const r = cb(f)(v, i, t); return r instanceof Arr ? r.items : [r]; })));
  def(A, "flat", (t, [d = 1]) => { const fl = (x, n) => x.flatMap((v) => (v instanceof Arr && n > 0 ? fl(v.items, n - 1) : [v])); return w.arr(fl(I(t), d)); });
  for (const n of ["find", "findLast", "findIndex", "findLastIndex", "some", "every"]) def(A, n, (t, [f]) => I(t)[n]((v, i) => yes(cb(f)(v, i, t))));
  for (const n of ["reduce", "reduceRight"]) def(A, n, (t, a) => {
    const x = I(t); if (!x.length && a.length < 2) w.raise("Reduce of empty array with no initial value");
    const g = (acc, v, i) => cb(a[0])(acc, v, i, t);
    return a.length > 1 ? x[n](g, a[1]) : x[n](g);
  });
  def(A, "includes", (t, [v]) => { for (const x of I(t)) { const r = w.strictEq(x, v); if (isAbs(r) ? yes(r) : r || (x !== x && v !== v)) return true; } return false; });
  def(A, "indexOf", (t, [v]) => I(t).findIndex((x) => yes(w.strictEq(x, v))));
  def(A, "lastIndexOf", (t, [v]) => I(t).findLastIndex((x) => yes(w.strictEq(x, v))));
  def(A, "join", (t, [s = ","]) => { const p = I(t).map((x) => (x === null || x === undefined ? "" : w.str(x))); return p.some(isAbs) || isAbs(s) ? new Abs("str", "text") : p.join(s); });
  def(A, "reverse", (t) => { mut(t).reverse(); return t; });
  def(A, "toReversed", (t) => w.arr([...I(t)].reverse()));
  def(A, "fill", (t, [v, s, e]) => { const x = mut(t); x.fill(v, idx(s, x.length, 0), idx(e, x.length, x.length)); return t; });
  def(A, "at", (t, [i]) => I(t).at(i));
  def(A, "with", (t, [i, v]) => { const x = [...I(t)]; x[i < 0 ? x.length + i : i] = v; return w.arr(x); });
  const sort = (x, f) => { const c = [...x].sort((a, b) => { const r = f ? cb(f)(a, b) : w.str(a) < w.str(b) ? -1 : w.str(a) > w.str(b) ? 1 : 0; if (isAbs(r)) throw new Undecided("order of unknowns"); return r; }); return c; };
  def(A, "sort", (t, [f]) => { const s = sort(mut(t), f); t.items.splice(0, s.length, ...s); return t; });
  def(A, "toSorted", (t, [f]) => w.arr(sort(I(t), f)));
  def(A, "keys", (t) => w.iterObj([...I(t).keys()]));
  def(A, "values", (t) => w.iterObj([...I(t)]));
  def(A, "entries", (t) => w.iterObj(I(t).map((v, i) => w.arr([i, v]))));
  A.props.set(Symbol.iterator, { v: w.fn("values", (t) => w.iterObj([...I(t)])), hidden: true });
  const newArray = (a) => (a.length === 1 && typeof a[0] === "number" ? w.arr(Array(a[0]).fill(undefined)) : w.arr(a));
  const ArrayC = cls("Array", A, newArray);
  def(ArrayC, "isArray", (t, [v]) => (isAbs(v) ? (v.kind === "top" ? top("isArray " + v.why) : false) : v instanceof Arr));
  def(ArrayC, "of", (t, a) => w.arr(a));
  def(ArrayC, "from", (t, [v, f]) => {
    let x;
    if (isAbs(v)) return top("Array.from of " + v.why);
    if (typeof v === "string" || v instanceof Arr || v instanceof MapV || v instanceof SetV) x = w.iterate(v);
    else if (v instanceof Obj && w.get(v, Symbol.iterator) !== undefined) x = w.iterate(v);
    else { const n = w.get(v, "length"); if (isAbs(n)) throw new Undecided("unknown length"); x = Array.from({ length: n ?? 0 }, (_, i) => w.get(v, String(i))); }
    return w.arr(f ? x.map((y, i) => cb(f)(y, i)) : x);
  });
  // ---- iterators
  def(P.iterator, "next", (t) => (t.iterPos < t.iterItems.length ? w.obj({ done: false, value: t.iterItems[t.iterPos++] }) : w.obj({ done: true, value: undefined })));
  P.iterator.props.set(Symbol.iterator, { v: w.fn("iterator", (t) => t), hidden: true });
  for (const n of ["map", "filter", "some", "every", "find", "forEach", "reduce", "flatMap"]) def(P.iterator, n, (t, a) => { const r = w.call(A.props.get(n).v, w.arr(w.iterate(t)), a); return r instanceof Arr && n !== "reduce" && n !== "find" ? w.iterObj(r.items) : r; });
  def(P.iterator, "toArray", (t) => w.arr(w.iterate(t)));
  // ---- maps and sets
  const mk = (k) => { if (isAbs(k)) throw new Undecided("unknown key of a map"); return k; };
  const M = P.map;
  def(M, "get", (t, [k]) => t.m.get(mk(k)));
  def(M, "set", (t, [k, v]) => { t.m.set(mk(k), v); return t; });
  def(M, "has", (t, [k]) => t.m.has(mk(k)));
  def(M, "delete", (t, [k]) => t.m.delete(mk(k)));
  def(M, "clear", (t) => t.m.clear());
  def(M, "forEach", (t, [f]) => { for (const [k, v] of t.m) cb(f)(v, k, t); });
  def(M, "keys", (t) => w.iterObj([...t.m.keys()]));
  def(M, "values", (t) => w.iterObj([...t.m.values()]));
  def(M, "entries", (t) => w.iterObj([...t.m].map((e) => w.arr(e))));
  M.props.set(Symbol.iterator, M.props.get("entries"));
  M.props.set("size", { get: w.fn("size", (t) => t.m.size), hidden: true });
  const MapC = cls("Map", M, ([it]) => { const m = new MapV(w); if (it) for (const e of w.iterate(it)) m.m.set(mk(w.get(e, "0")), w.get(e, "1")); return m; });
  const S = P.set;
  def(S, "add", (t, [k]) => { t.m.add(mk(k)); return t; });
  def(S, "has", (t, [k]) => t.m.has(mk(k)));
  def(S, "delete", (t, [k]) => t.m.delete(mk(k)));
  def(S, "clear", (t) => t.m.clear());
  def(S, "forEach", (t, [f]) => { for (const k of t.m) cb(f)(k, k, t); });
  for (const n of ["values", "keys"]) def(S, n, (t) => w.iterObj([...t.m]));
  S.props.set(Symbol.iterator, S.props.get("values"));
  S.props.set("size", { get: w.fn("size", (t) => t.m.size), hidden: true });
  const SetC = cls("Set", S, ([it]) => { const m = new SetV(w); if (it) for (const e of w.iterate(it)) m.m.add(mk(e)); return m; });
  // ---- regular expressions
  def(P.regex, "test", (t, [s]) => (isAbs(s) ? top("regex") : t.re.test(s)));
  def(P.regex, "exec", (t, [s]) => (isAbs(s) ? top("regex") : w.wrapResult(t.re.exec(s))));
  // ---- errors
  this.errorProtos = {};
  const errs = {};
  for (const n of ["Error", "TypeError", "RangeError", "ReferenceError", "SyntaxError"]) {
    const p = n === "Error" ? P.error : new Obj(P.error);
    this.errorProtos[n] = p;
    p.props.set("name", { v: n, hidden: true }); p.props.set("message", { v: "", hidden: true });
    const f = new Fn(w, n, (t, a) => f.constructf(a), (a, target) => { const o = new Obj(target?.props.get("prototype")?.v ?? p); o.isError = true; if (a[0] !== undefined) o.props.set("message", { v: w.str(a[0]), hidden: true }); return o; });
    f.props.set("prototype", { v: p }); p.props.set("constructor", { v: f, hidden: true });
    errs[n] = f;
  }
  // ---- Object, Math, Number, String, JSON
  const ObjectC = cls("Object", P.object, ([v]) => (v instanceof Obj ? v : new Obj(P.object)));
  const ok = (o) => { if (isAbs(o)) throw new Undecided("the keys of " + o.why); if (o === null || o === undefined) w.raise("Cannot convert undefined or null to object"); return o; };
  def(ObjectC, "keys", (t, [o]) => w.arr(w.keysOf(ok(o))));
  def(ObjectC, "values", (t, [o]) => w.arr(w.keysOf(ok(o)).map((k) => w.get(o, k))));
  def(ObjectC, "entries", (t, [o]) => w.arr(w.keysOf(ok(o)).map((k) => w.arr([k, w.get(o, k)]))));
  def(ObjectC, "fromEntries", (t, [it]) => { const o = new Obj(P.object); for (const e of w.iterate(it)) o.props.set(w.key(w.get(e, "0")), { v: w.get(e, "1") }); return o; });
  def(ObjectC, "assign", (t, [o, ...ss]) => { for (const s of ss) if (s) for (const k of w.keysOf(ok(s))) w.set(o, k, w.get(s, k)); return o; });
  def(ObjectC, "freeze", (t, [o]) => { if (o instanceof Obj) o.frozen = true; return o; });
  def(ObjectC, "create", (t, [p]) => new Obj(p));
  def(ObjectC, "hasOwn", (t, [o, k]) => ok(o) instanceof Obj && (o.props.has(w.key(k)) || (o instanceof Arr && +k < o.items.length)));
  def(ObjectC, "is", (t, [a, b]) => (isAbs(a) || isAbs(b) ? w.strictEq(a, b) : Object.is(a, b)));
  def(ObjectC, "defineProperty", (t, [o, k, d]) => { o.props.set(w.key(k), w.has(d, "get") ? { get: w.get(d, "get"), set: w.get(d, "set") } : { v: w.get(d, "value") }); return o; });
  const MathC = new Obj(P.object);
  const num = (v) => isAbs(v) ? v.kind === "fin" : typeof v === "number";
  const lo = (v) => (isAbs(v) ? v.lo : v), hi = (v) => (isAbs(v) ? v.hi : v);
  for (const k of Object.getOwnPropertyNames(Math)) {
    if (typeof Math[k] !== "function") { MathC.props.set(k, { v: Math[k] }); continue; }
    def(MathC, k, (t, a) => {
      if (!a.some((v) => v instanceof Obj || isAbs(v))) return Math[k](...a);
      if (a.every((v) => num(v) || v === undefined) && a.some((v) => v === undefined || Number.isNaN(v))) return NaN;
      if (!a.every(num)) return top("Math." + k);
      return w.same("Math." + k, a, () => one(k, a));
    });
    const one = (k, a) => {
      if (k === "max" || k === "min") {
        const lim = k === "max" ? Infinity : -Infinity;
        if (a.some((v) => v === lim)) return lim;
        const b = a.filter((v) => v !== -lim);
        if (b.length === 1) return b[0];
        return fin(k, Math[k](...b.map(lo)), Math[k](...b.map(hi)));
      }
      if (k === "abs") { if (lo(a[0]) >= 0) return a[0]; const l = lo(a[0]), h = isAbs(a[0]) ? a[0].hi : a[0]; return fin(k, l <= 0 && h >= 0 ? 0 : Math.min(Math.abs(l), Math.abs(h)), Math.max(Math.abs(l), Math.abs(h))); }
      if (k === "hypot") {
        if (a.some((v) => !isAbs(v) && !isFinite(v))) return Infinity;
        const near = (v) => (lo(v) <= 0 && hi(v) >= 0 ? 0 : Math.min(Math.abs(lo(v)), Math.abs(hi(v)))), far = (v) => Math.max(Math.abs(lo(v)), Math.abs(hi(v)));
        return fin(k, Math.hypot(...a.map(near)), Math.hypot(...a.map(far)));
      }
      if (k === "sqrt") return lo(a[0]) >= 0 ? fin(k, Math.sqrt(lo(a[0])), Math.sqrt(hi(a[0]))) : top("root of a possibly negative number");
      if (["floor", "ceil", "round", "trunc"].includes(k)) return fin(k, Math[k](lo(a[0])), Math[k](hi(a[0])));
      if (k === "sign") return fin(k, -1, 1);
      return top("Math." + k);
    };
  }
  const NumberC = cls("Number", new Obj(P.object), ([v]) => v);
  NumberC.callf = (t, [v]) => (isAbs(v) ? (v.kind === "fin" ? v : v.kind === "str" ? fin(v.why, v.lo, v.hi) : top("Number")) : v instanceof Obj ? NaN : Number(v));
  for (const k of ["isNaN", "isFinite", "isInteger", "isSafeInteger", "parseFloat", "parseInt"]) def(NumberC, k, (t, a) => (isAbs(a[0]) ? (a[0].kind === "fin" && k === "isNaN" ? false : a[0].kind === "fin" && k === "isFinite" ? true : k.startsWith("parse") && a[0].kind === "str" ? fin(k, a[0].lo, a[0].hi) : top(k)) : Number[k](...a)));
  for (const k of ["MAX_SAFE_INTEGER", "MIN_SAFE_INTEGER", "EPSILON", "MAX_VALUE", "MIN_VALUE", "POSITIVE_INFINITY", "NEGATIVE_INFINITY", "NaN"]) NumberC.props.set(k, { v: Number[k] });
  const StringC = cls("String", new Obj(P.object), ([v]) => v);
  StringC.callf = (t, a) => (a.length ? w.str(a[0]) : "");
  for (const k of ["fromCodePoint", "fromCharCode", "raw"]) def(StringC, k, (t, a) => w.native(() => String[k](...a), a));
  const BooleanC = cls("Boolean", new Obj(P.object), ([v]) => v);
  BooleanC.callf = (t, [v]) => w.truthy(v);
  const JSONC = new Obj(P.object);
  def(JSONC, "stringify", () => new Abs("str", "JSON"));
  def(JSONC, "parse", () => top("JSON"));
  const con = new Obj(P.object);
  for (const k of ["log", "warn", "error", "info", "debug", "assert", "table", "trace", "group", "groupEnd"]) def(con, k, (t, a) => { w.log.push([k, a]); });
  const SymbolC = w.fn("Symbol", (t, [d]) => Symbol(d));
  SymbolC.props.set("iterator", { v: Symbol.iterator });
  const g = new Map();
  const put = (o) => { for (const [k, v] of Object.entries(o)) g.set(k, { v }); };
  put({ Array: ArrayC, Map: MapC, Set: SetC, WeakMap: MapC, WeakSet: SetC, Object: ObjectC, Math: MathC, Number: NumberC, String: StringC, Boolean: BooleanC, JSON: JSONC, console: con, Symbol: SymbolC, NaN, Infinity, ...errs });
  put({
    isNaN: w.fn("isNaN", (t, [v]) => (isAbs(v) ? (v.kind === "fin" ? false : top("isNaN")) : Number.isNaN(Number(v)))),
    isFinite: w.fn("isFinite", (t, [v]) => (isAbs(v) ? (v.kind === "fin" ? true : top("isFinite")) : isFinite(v))),
    parseInt: w.fn("parseInt", (t, a) => (a.some(isAbs) ? top("parseInt") : parseInt(...a))),
    parseFloat: w.fn("parseFloat", (t, a) => (isAbs(a[0]) ? (a[0].kind === "str" ? fin("parseFloat", a[0].lo, a[0].hi) : top("parseFloat")) : parseFloat(...a))),
    structuredClone: w.fn("structuredClone", (t, [v]) => clone(w, v)),
    queueMicrotask: w.fn("queueMicrotask", (t, [f]) => { w.timers.push(f); }), setTimeout: w.fn("setTimeout", (t, [f]) => w.timers.push(f)), clearTimeout: w.fn("clearTimeout", (t, [n]) => { if (typeof n === "number") w.timers[n - 1] = null; }),
    requestAnimationFrame: w.fn("requestAnimationFrame", (t, [f]) => w.timers.push(f)),
  });
  for (const n of ["customElements", "window", "Promise", "Date", "Proxy", "Reflect", "ResizeObserver", "navigator"]) g.set(n, { v: top(n) });
  // grapheme segmentation may or may not be there
  const seg = new Obj(P.object);
  def(seg, "segment", (t, [s]) => { if (isAbs(s)) return w.arr(w.graphemes(s).map((x) => w.obj({ segment: x }))); return w.arr([...new Intl.Segmenter("en", { granularity: "grapheme" }).segment(s)].map((x) => w.obj({ segment: x.segment, index: x.index }))); });
  const Intl_ = w.obj({ Segmenter: new Fn(w, "Segmenter", () => seg, () => seg) });
  const global = new Obj(P.object);
  g.set("globalThis", { v: global });
  g.set("Intl", { v: Intl_ });
  document_(w, g);
  for (const [k, d] of g) if (k !== "globalThis") global.props.set(k, d);
  if (w.opts.noSegmenter) Intl_.props.delete("Segmenter");
  this.globals = { parent: null, vars: g, find(n) { return g.has(n) ? this : null; } };
};
/** An unknown text falls into up to three unknown graphemes. */
World.prototype.graphemes = function (s) {
  return this.same("graphemes", [s], () => Array.from({ length: this.choose(4, true) }, (_, i) => { const g = new Abs("str", `grapheme ${i} of ${s.why}`); g.grapheme = true; return g; }));
};
function clone(w, v) {
  if (v instanceof Arr) return w.arr(v.items.map((x) => clone(w, x)));
  if (v instanceof Obj && !(v instanceof Fn)) { const o = new Obj(v.proto); for (const [k, d] of v.props) o.props.set(k, "v" in d ? { v: clone(w, d.v) } : d); return o; }
  return v;
}

// ---- the document: elements keep their name, attributes and children; where they end up on the screen is unknown
export class DomNode extends Obj {
  constructor(w, kind, name) {
    super(w.protos.node);
    this.kind = kind; this.tag = name; this.kids = []; this.attrs = new Map(); this.classes = new Set(); this.parentNode = null; this.rect = null;
    this.props.set("style", { v: (() => { const s = new Obj(w.protos.object); s.props.set("setProperty", { v: w.fn("setProperty", () => undefined), hidden: true }); return s; })() });
  }
}
export const domText = (n) => (n.kind === "text" ? n.text : n.kids.map(domText).join(""));
function rectOf(w, n) {
  // one geometry per element: asking twice gives the same answer
  if (n && n.rect) return n.rect;
  const known = n && w.layout?.(n);
  if (known) {
    const { left, right, top: t, bottom } = known;
    return (n.rect = w.obj({ x: left, y: t, width: w.arith("-", right, left), height: w.arith("-", bottom, t), left, right, top: t, bottom }));
  }
  const x = fin("x"), y = fin("y"), width = fin("width", 0), height = fin("height", 0);
  const r = w.obj({ x, y, width, height, left: x, top: y, right: fin("right"), bottom: fin("bottom") });
  if (n) n.rect = r;
  return r;
}
function document_(w, g) {
  const P = w.protos.node;
  const def = (name, f) => P.props.set(name, { v: new Fn(w, name, f), hidden: true });
  const get = (name, f, s) => P.props.set(name, { get: w.fn(name, f), set: s && w.fn(name, (t, [v]) => s(t, v)), hidden: true });
  const node = (x) => { if (x instanceof DomNode) return x; if (typeof x === "string") return text(x); if (isAbs(x)) return text("?"); w.raise("parameter is not of type 'Node'"); };
  const detach = (c) => { if (c.parentNode) { const i = c.parentNode.kids.indexOf(c); if (i >= 0) c.parentNode.kids.splice(i, 1); c.parentNode = null; } };
  const inside = (p, c) => { for (let q = p; q; q = q.parentNode) if (q === c) return true; return false; };
  const add = (p, at, c) => { if (inside(p, c)) w.raise("The new child element contains the parent", "Error"); if (c.kind === "fragment") { for (const k of [...c.kids]) at = add(p, at, k) + 1; return at; } detach(c); at = Math.min(at, p.kids.length); p.kids.splice(at, 0, c); c.parentNode = p; return at; };
  const text = (s) => { const n = new DomNode(w, "text", "#text"); n.text = s; return n; };
  const element = (t) => { if (isAbs(t)) throw new Undecided("element with an unknown name"); return new DomNode(w, "element", String(t)); };
  def("append", (t, a) => { for (const x of a) add(t, t.kids.length, node(x)); });
  def("prepend", (t, a) => { a.map(node).forEach((x, i) => add(t, i, x)); });
  def("appendChild", (t, [c]) => { if (!(c instanceof DomNode)) w.raise("parameter 1 is not of type 'Node'"); add(t, t.kids.length, c); return c; });
  def("insertBefore", (t, [c, r]) => { add(t, r ? t.kids.indexOf(r) : t.kids.length, c); return c; });
  def("removeChild", (t, [c]) => { detach(c); return c; });
  def("remove", (t) => detach(t));
  def("replaceChildren", (t, a) => { for (const k of [...t.kids]) detach(k); for (const x of a) add(t, t.kids.length, node(x)); });
  def("replaceWith", (t, a) => { const p = t.parentNode; if (!p) return; const i = p.kids.indexOf(t); detach(t); a.map(node).forEach((x, j) => add(p, i + j, x)); });
  def("setAttribute", (t, [k, v]) => { t.attrs.set(w.str(k), w.str(v)); });
  def("getAttribute", (t, [k]) => t.attrs.get(k) ?? null);
  def("hasAttribute", (t, [k]) => t.attrs.has(k));
  def("removeAttribute", (t, [k]) => { t.attrs.delete(k); });
  def("toggleAttribute", (t, [k]) => { t.attrs.set(k, ""); });
  def("addEventListener", (t, [k, f]) => { const l = (t.listeners ??= new Map()); if (!l.has(k)) l.set(k, []); if (!l.get(k).includes(f)) l.get(k).push(f); });
  def("removeEventListener", (t, [k, f]) => { const l = t.listeners?.get(k); if (l?.includes(f)) l.splice(l.indexOf(f), 1); });
  for (const n of ["focus", "blur", "setPointerCapture", "releasePointerCapture", "select", "scrollIntoView"]) def(n, () => undefined);
  def("attachShadow", (t) => { const s = new DomNode(w, "shadow", "#shadow-root"); s.host = t; t.shadow = s; t.props.set("shadowRoot", { v: s, hidden: true }); return s; });
  get("innerHTML", (t) => t.html_ ?? "", (t, v) => {
    for (const k of [...t.kids]) detach(k);
    t.html_ = v;
    if (v === "") return;
    // whatever the markup is: one element that remembers it
    const e = element("math"); e.ns = "http://www.w3.org/1998/Math/MathML"; e.markup = v;
    if (t.tag === "template") { const c = new DomNode(w, "fragment", "#fragment"); add(c, 0, e); t.content = c; } else add(t, 0, e);
  });
  get("content", (t) => t.content);
  get("innerText", (t) => domText(t), (t, v) => { for (const k of [...t.kids]) detach(k); add(t, 0, text(v)); });
  def("getBoundingClientRect", (t) => rectOf(w, t));
  def("cloneNode", (t, [deep]) => { const c = new DomNode(w, t.kind, t.tag); c.text = t.text; for (const [k, v] of t.attrs) c.attrs.set(k, v); if (deep) for (const k of t.kids) add(c, c.kids.length, w.call(w.get(k, "cloneNode"), k, [true])); return c; });
  get("tagName", (t) => (t.kind === "element" ? (t.html ? t.tag.toUpperCase() : t.tag) : undefined));
  get("localName", (t) => t.tag);
  get("nodeName", (t) => t.tag);
  get("nodeType", (t) => (t.kind === "element" ? 1 : 3));
  get("isConnected", (t) => t.connected ?? true);
  get("parentNode", (t) => t.parentNode); get("parentElement", (t) => t.parentNode);
  get("childNodes", (t) => w.arr([...t.kids]));
  get("children", (t) => w.arr(t.kids.filter((k) => k.kind === "element")));
  get("childElementCount", (t) => t.kids.filter((k) => k.kind === "element").length);
  get("firstChild", (t) => t.kids[0] ?? null); get("lastChild", (t) => t.kids.at(-1) ?? null);
  get("firstElementChild", (t) => t.kids.find((k) => k.kind === "element") ?? null); get("lastElementChild", (t) => t.kids.findLast((k) => k.kind === "element") ?? null);
  get("textContent", (t) => t.absText ?? domText(t), (t, v) => { for (const k of [...t.kids]) detach(k); if (t.kind === "text") t.text = v; else add(t, 0, text(v)); });
  get("data", (t) => t.text, (t, v) => { t.text = v; });
  get("nodeValue", (t) => t.text ?? null, (t, v) => { t.text = v; });
  get("length", (t) => (t.kind === "text" ? (isAbs(t.text) ? fin("length", 0) : t.text.length) : undefined));
  get("classList", (t) => { const o = new Obj(w.protos.object); const d = (n, f) => o.props.set(n, { v: w.fn(n, (_, a) => f(...a)) }); d("add", (...c) => c.forEach((x) => t.classes.add(x))); d("remove", (...c) => c.forEach((x) => t.classes.delete(x))); d("contains", (c) => t.classes.has(c)); d("toggle", (c) => { t.classes.has(c) ? t.classes.delete(c) : t.classes.add(c); return t.classes.has(c); }); return o; });
  get("className", (t) => [...t.classes].join(" "), (t, v) => { t.classes = new Set(String(v).split(" ")); });
  get("dataset", (t) => (t.ds ??= new Obj(w.protos.object)));
  const doc = new Obj(w.protos.object);
  const dd = (n, f) => doc.props.set(n, { v: w.fn(n, (_, a) => f(...a)) });
  dd("createElementNS", (ns, t) => { const e = element(t); e.ns = ns; return e; });
  dd("createElement", (t) => { const e = element(t); e.html = true; return e; });
  dd("createTextNode", (s) => text(typeof s === "string" || isAbs(s) ? s : w.str(s)));
  dd("createDocumentFragment", () => new DomNode(w, "fragment", "#fragment"));
  dd("createRange", () => {
    const o = new Obj(w.protos.object); let sel = null;
    const d = (n, f) => o.props.set(n, { v: w.fn(n, (_, a) => f(...a)) });
    for (const n of ["selectNode", "selectNodeContents"]) d(n, (x) => { if (!(x instanceof DomNode)) w.raise("parameter 1 is not of type 'Node'"); sel = x; });
    d("setStart", (x) => { sel = null; }); d("setEnd", () => undefined);
    d("getBoundingClientRect", () => rectOf(w, sel)); d("detach", () => undefined);
    return o;
  });
  const kinds = { Node: () => true, Element: (n) => n.kind === "element", Text: (n) => n.kind === "text", MathMLElement: (n) => n.ns === "http://www.w3.org/1998/Math/MathML", HTMLElement: (n) => n.kind === "element" && !n.ns };
  for (const [name, is] of Object.entries(kinds)) {
    const p = new Obj(w.protos.node);
    const f = new Fn(w, name, () => w.raise("Illegal constructor"), (a, target) => { const e = new DomNode(w, "element", "custom-element"); e.html = true; e.connected = false; return e; });
    f.props.set("prototype", { v: p });
    f.accepts = (v) => v instanceof DomNode && is(v);
    g.set(name, { v: f });
  }
  doc.props.set("body", { v: top("document.body") });
  g.set("document", { v: doc });
  const css = new Obj(w.protos.object);
  css.props.set("getPropertyValue", { v: w.fn("getPropertyValue", () => new Abs("str", "a length", 1, 1000)) });
  css.props.set("fontSize", { v: new Abs("str", "a length", 1, 1000) });
  css.props.set("getPropertyValue", { v: w.fn("getPropertyValue", () => new Abs("str", "a length", 1, 1000)) });
  g.set("getComputedStyle", { v: w.fn("getComputedStyle", (t, [x]) => { if (!(x instanceof DomNode)) w.raise("parameter 1 is not of type 'Element'"); return css; }) });
}
