// A small stand-in for the browser: elements, texts, and a layout that draws everything from left to right, ten units per character.
class Style { setProperty(k, v) { this[k] = v; } }
class N { constructor() { this.parentNode = null; } get isConnected() { return true; } }
export class T extends N {
  constructor(d) { super(); this.data = d; }
  get textContent() { return this.data; }
  get length() { return this.data.length; }
  remove() { if (this.parentNode) this.parentNode.childNodes.splice(this.parentNode.childNodes.indexOf(this), 1); this.parentNode = null; }
}
export class E extends N {
  constructor(t) {
    super(); this.tagName = t; this.childNodes = []; this.attrs = {}; this.style = new Style(); const c = new Set();
    this.classList = { add: (...v) => v.forEach((x) => c.add(x)), remove: (...v) => v.forEach((x) => c.delete(x)), contains: (x) => c.has(x) };
  }
  get children() { return this.childNodes.filter((v) => v instanceof E); }
  get childElementCount() { return this.children.length; }
  get textContent() { return this.childNodes.map((v) => v.textContent).join(""); }
  appendChild(c) { c.remove(); c.parentNode = this; this.childNodes.push(c); return c; }
  append(...cs) { cs.forEach((c) => this.appendChild(typeof c === "string" ? new T(c) : c)); }
  remove() { if (this.parentNode) this.parentNode.childNodes.splice(this.parentNode.childNodes.indexOf(this), 1); this.parentNode = null; }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  getAttribute(k) { return this.attrs[k] ?? null; }
  hasAttribute(k) { return k in this.attrs; }
  getBoundingClientRect() { return this.box ?? rect(0, 0, 0, 0); }
}
const rect = (x, y, width, height) => ({ x, y, width, height, left: x, top: y, right: x + width, bottom: y + height });
export function layout(node, x = 0, y = 0, h = 20) {
  let w = 0;
  if (node instanceof T) w = 10 * [...node.data].length;
  else for (const c of node.childNodes) w += layout(c, x + w, y, h);
  node.box = rect(x, y, w, h);
  return w;
}
export const html = (t, ...cs) => { const e = new E(t); e.append(...cs); return e; };
export const show = (n) => (n instanceof T ? n.data : `<${n.tagName}>${n.childNodes.map(show).join("")}</${n.tagName}>`);
globalThis.document = {
  createElementNS: (_, t) => new E(t), createElement: (t) => new E(t), createTextNode: (d) => new T(d),
  createRange: () => { let n; return { selectNode: (v) => (n = v), setStart: (v) => (n = v), setEnd() {}, getBoundingClientRect: () => n.box ?? rect(0, 0, 0, 0) }; },
};
globalThis.getComputedStyle = () => ({ getPropertyValue: () => "16px" });
globalThis.HTMLElement ??= E; globalThis.MathMLElement ??= E; globalThis.Element ??= E; globalThis.Text ??= T;
