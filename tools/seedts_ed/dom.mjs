// A small stand-in for the browser: elements, texts, and a layout that draws everything from left to right, ten units per character.
class Style { setProperty(k, v) { this[k] = v; } }
class N { constructor() { this.parentNode = null; } get isConnected() { return true; } }
export class T extends N {
  constructor(d) { super(); this.data = d; }
  get textContent() { return this.data; }
  get length() { return this.data.length; }
  remove() { if (this.parentNode) this.parentNode.childNodes.splice(this.parentNode.childNodes.indexOf(this), 1); this.parentNode = null; }
}
export class E extends N {
  constructor(t) {
    super(); this.tagName = t; this.childNodes = []; this.attrs = {}; this.style = new Style(); const c = new Set();
    this.classList = { add: (...v) => v.forEach((x) => c.add(x)), remove: (...v) => v.forEach((x) => c.delete(x)), contains: (x) => c.has(x) };
  }
  get children() { return this.childNodes.filter((v) => v instanceof E); }
  get childElementCount() { return this.children.length; }
  get textContent() { return this.childNodes.map((v) => v.textContent).join(""); }
  appendChild(c) { c.remove(); c.parentNode = this; this.childNodes.push(c); return c; }
  append(...cs) { cs.forEach((c) => this.appendChild(typeof c === "string" ? new T(c) : c)); }
  remove() { if (this.parentNode) this.parentNode.childNodes.splice(this.parentNode.childNodes.indexOf(this), 1); this.parentNode = null; }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  getAttribute(k) { return this.attrs[k] ?? null; }
  hasAttribute(k) { return k in this.attrs; }
  getBoundingClientRect() { return this.box ?? rect(0, 0, 0, 0); }
}
const rect = (x, y, width, height) => ({ x, y, width, height, left: x, top: y, right: x + width, bottom: y + height });
export function layout(node, x = 0, y = 0, h = 20) {
  let w = 0;
  if (node instanceof T) w = 10 * [...node.data].length;
  else for (const c of node.childNodes) w += layout(c, x + w, y, h);
  node.box = rect(x, y, w, h);
  return w;
}
export const html = (t, ...cs) => { const e = new E(t); e.append(...cs); return e; };
export const show = (n) => (n instanceof T ? n.data : `<${n.tagName}>${n.childNodes.map(show).join("")}</${n.tagName}>`);
globalThis.document = {
  createElementNS: (_, t) => new E(t), createElement: (t) => new E(t), createTextNode: (d) => new T(d),
  createRange: () => { let n; return { selectNode: (v) => (n = v), setStart: (v) => (n = v), setEnd() {}, getBoundingClientRect: () => n.box ?? rect(0, 0, 0, 0) }; },
};
globalThis.getComputedStyle = () => ({ getPropertyValue: () => "16px" });
globalThis.HTMLElement ??= E; globalThis.MathMLElement ??= E; globalThis.Element ??= E; globalThis.Text ??= T;
// --- what the editor element needs in addition ---
Object.defineProperty(E.prototype, "className", { get() { return this.cls ?? ""; }, set(v) { this.cls = v; } });
Object.defineProperty(E.prototype, "textContent", { get() { return this.childNodes.map((v) => v.textContent).join(""); }, set(v) { this.childNodes = []; this.append(String(v)); } });
Object.assign(E.prototype, {
  replaceChildren(...cs) { [...this.childNodes].forEach((c) => c.remove()); this.append(...cs); layout(this); },
  addEventListener(k, f) { ((this.listeners ??= {})[k] ??= []).push(f); },
  fire(k, ev) { const e = { type: k, isPrimary: true, pointerId: 1, clientX: 0, clientY: 0, detail: 1, preventDefault() { this.defaultPrevented = true; }, stopPropagation() {}, target: this, currentTarget: this, ...ev }; (this.listeners?.[k] ?? []).forEach((f) => f.call(this, e)); return e; },
  attachShadow() { this.shadow = new E("shadow"); this.shadow.parentNode = this; return this.shadow; },
  focus() { this.focused = (this.focused ?? 0) + 1; }, blur() {}, setPointerCapture() {}, releasePointerCapture() {}, hasPointerCapture() { return true; },
  removeAttribute(k) { delete this.attrs[k]; },
  find(f) { return this.childNodes.flatMap((v) => (v instanceof E ? [...(f(v) ? [v] : []), ...v.find(f)] : [])); },
});
globalThis.HTMLElement = class extends E { constructor() { super("custom"); } };
globalThis.MathMLElement = E; globalThis.Element = E;
globalThis.customElements = { define() {} };
export const tasks = []; globalThis.setTimeout = (f) => tasks.push(f); export const settle = () => { while (tasks.length) tasks.shift()(); };
// <template>: tags without attributes, and texts
class Template extends E {
  set innerHTML(s) {
    const root = new E("content"); let at = root;
    for (const [, close, tag, text] of s.matchAll(/<(\/?)([a-z]+)[^>]*>|([^<]+)/g)) {
      if (text !== undefined) at.append(text); else if (close) at = at.parentNode; else at = at.appendChild(new E(tag));
    }
    this.content = { firstElementChild: root.children[0] ?? null };
  }
}
const create = document.createElement; document.createElement = (t) => (t === "template" ? new Template(t) : create(t));
