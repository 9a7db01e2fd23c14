// Abstract interpreter of the front end's TypeScript, over the syntax tree that the TypeScript compiler
// builds.  Values are ordinary JavaScript values, unknown finite numbers with bounds, unknown strings, or
// "anything" (Abs).  Nothing of the program is run: every construct is given its meaning here, and a branch
// on an unknown is taken both ways (one run per combination of choices, see explore).
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
const require = createRequire("/opt/veriftools/node/");
export const ts = require("typescript");
const K = ts.SyntaxKind;

export class Undecided extends Error {}
export class Throw { constructor(value, stack) { this.value = value; this.stack = stack; } }
class Return { constructor(v) { this.v = v; } }
class Break { constructor(l) { this.label = l; } }
class Continue { constructor(l) { this.label = l; } }

let ids = 0;
export class Abs {
  constructor(kind, why, lo = -Infinity, hi = Infinity) { this.kind = kind; this.why = why; this.lo = lo; this.hi = hi; this.id = ++ids; }
}
export const fin = (why, lo, hi) => new Abs("fin", why, lo, hi);
export const square = (v) => { const a = Math.abs(v.lo), b = Math.abs(v.hi); return fin("square", v.lo <= 0 && v.hi >= 0 ? 0 : Math.min(a, b) ** 2, Math.max(a, b) ** 2); };
export const top = (why) => new Abs("top", why);
export const isAbs = (v) => v instanceof Abs;
const deepAbs = (v) => isAbs(v);

export class Obj {
  constructor(proto = null) { this.proto = proto; this.props = new Map(); }
  own(k) { return this.props.get(k); }
}
export class Arr extends Obj { constructor(w, items) { super(w.protos.array); this.items = items; } }
export class MapV extends Obj { constructor(w) { super(w.protos.map); this.m = new Map(); } }
export class SetV extends Obj { constructor(w) { super(w.protos.set); this.m = new Set(); } }
export class Fn extends Obj {
  constructor(w, name, call, construct) { super(w ? w.protos.function : null); this.name = name; this.callf = call; this.constructf = construct; }
}
export class Regex extends Obj { constructor(w, re) { super(w.protos.regex); this.re = re; } }

class Env {
  constructor(parent) { this.parent = parent; this.vars = new Map(); }
  find(n) { for (let e = this; e; e = e.parent) if (e.vars.has(n)) return e; return null; }
}
const TDZ = { tdz: true };

export class World {
  constructor(root, opts = {}) {
    this.root = root; this.opts = opts; this.files = new Map(); this.visited = new Set();
  }
  reset(trace) {
    this.trace = trace; this.pos = 0; this.imprecise = null; this.steps = 0; this.stack = []; this.modules = new Map(); this.log = []; this.timers = []; this.memo = new Map();
    this.protos = {}; this.makeGlobals();
  }
  // ---- choices
  choose(n, precise, why) {
    if (!precise) this.imprecise ??= why ?? "a value this analysis does not know";
    if (this.pos < this.trace.length) return this.trace[this.pos++].pick;
    this.trace.push({ pick: 0, n }); this.pos++;
    return 0;
  }
  tick() { if (++this.steps > (this.opts.maxSteps ?? 2e6)) throw new Undecided("too many steps"); }
  // ---- truth
  truthy(v) {
    if (!isAbs(v)) return v instanceof Obj ? true : !!v;
    if (v.kind === "fin") {
      if (v.lo > 0 || v.hi < 0) return true;
      return this.choose(2, true) === 0;
    }
    if (v.kind === "bool") return this.same("bool", [v], () => this.choose(2, true) === 0);
    if (v.kind === "str" && v.lit) return !this.strictEq(v, "");
    return this.choose(2, false, v.why) === 0;
  }
  // ---- errors of the interpreted program
  error(msg, name = "Error") {
    const o = new Obj(this.errorProtos?.[name] ?? this.errorProtos?.Error ?? null);
    o.props.set("message", { v: msg }); o.props.set("name", { v: name });
    return o;
  }
  raise(msg, name = "TypeError") { throw new Throw(this.error(msg, name), this.where()); }
  get activeNodes() { return this.stack.map((s) => s.node); }
  where() { return this.stack.map((s) => `${s.name} (${s.file}:${s.line})`).reverse(); }

  // ---- modules
  source(file) {
    if (!this.files.has(file)) {
      const text = fs.readFileSync(file, "utf8");
      const sf = ts.createSourceFile(file, text, ts.ScriptTarget.ESNext, true);
      if (sf.parseDiagnostics?.length) throw new Undecided("syntax error in " + file);
      this.files.set(file, sf);
    }
    return this.files.get(file);
  }
  resolve(from, spec) {
    const over = this.opts.modules?.[spec];
    if (over) return { native: over, key: spec };
    if (!spec.startsWith(".")) return { opaque: spec };
    const p = path.resolve(path.dirname(from), spec);
    for (const c of [p, p + ".ts", p + ".tsx", p + "/index.ts", p.replace(/\.js$/, ".ts")]) {
      const rel = path.relative(this.root, c);
      if (this.opts.modules?.[rel]) return { native: this.opts.modules[rel], key: rel };
      if (fs.existsSync(c) && fs.statSync(c).isFile()) return /\.tsx?$/.test(c) ? { file: c } : { opaque: spec };
    }
    const rel = path.relative(this.root, p);
    if (this.opts.modules?.[rel]) return { native: this.opts.modules[rel], key: rel };
    return { opaque: spec };
  }
  module(r) {
    if (r.opaque) return { get: (n) => top(`${n} of ${r.opaque}`), names: () => [] };
    const key = r.file ?? r.key;
    if (this.modules.has(key)) return this.modules.get(key);
    if (r.native) {
      const exps = r.native(this);
      const m = { get: (n) => (n in exps ? exps[n] : top(`${n} of ${key}`)), names: () => Object.keys(exps) };
      this.modules.set(key, m);
      return m;
    }
    const exp = new Map(), stars = [];
    const m = {
      get: (n) => { if (exp.has(n)) return exp.get(n)(); for (const s of stars) { if (s.names().includes(n)) return s.get(n); } const s = stars.find((s) => s.names().length === 0); return s ? s.get(n) : undefined; },
      names: () => [...exp.keys(), ...stars.flatMap((s) => s.names())],
    };
    this.modules.set(key, m);
    const sf = this.source(r.file);
    const env = new Env(this.globals);
    env.file = r.file; env.module = true;
    this.hoist(sf.statements, env);
    for (const st of sf.statements) {
      if (ts.isImportDeclaration(st)) {
        if (st.importClause?.isTypeOnly) continue;
        const res = this.resolve(r.file, st.moduleSpecifier.text);
        const mod = this.module(res);
        const c = st.importClause;
        if (!c) continue;
        if (c.name) env.vars.set(c.name.text, { live: () => mod.get("default") });
        if (c.namedBindings && ts.isNamespaceImport(c.namedBindings)) {
          const o = new Obj(); for (const n of mod.names()) o.props.set(n, { get: new Fn(this, n, () => mod.get(n)) });
          env.vars.set(c.namedBindings.name.text, { v: res.opaque ? top(res.opaque) : o });
        } else if (c.namedBindings) for (const s of c.namedBindings.elements) {
          if (s.isTypeOnly) continue;
          const n = (s.propertyName ?? s.name).text;
          env.vars.set(s.name.text, { live: () => mod.get(n) });
        }
      } else if (ts.isExportDeclaration(st)) {
        if (st.isTypeOnly) continue;
        const mod = st.moduleSpecifier ? this.module(this.resolve(r.file, st.moduleSpecifier.text)) : null;
        if (!st.exportClause) stars.push(mod);
        else if (ts.isNamedExports(st.exportClause)) for (const s of st.exportClause.elements) {
          const n = (s.propertyName ?? s.name).text;
          exp.set(s.name.text, mod ? () => mod.get(n) : () => this.lookup(env, n));
        }
      } else {
        const mods = ts.canHaveModifiers(st) ? ts.getModifiers(st) ?? [] : [];
        const isExp = mods.some((x) => x.kind === K.ExportKeyword), isDef = mods.some((x) => x.kind === K.DefaultKeyword);
        const reg = (n) => exp.set(isDef ? "default" : n, () => this.lookup(env, n));
        if (isExp) {
          if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) this.bindNames(d.name).forEach((n) => reg(n));
          else if (st.name) reg(st.name.text);
        }
        if (ts.isExportAssignment(st)) { const v = this.evalIn(st.expression, env, r.file); exp.set("default", () => v); continue; }
        this.stack.push({ name: "module", file: path.relative(this.root, r.file), line: this.line(st) });
        this.exec(st, env, { file: r.file });
        this.stack.pop();
      }
    }
    return m;
  }
  line(n) { const sf = n.getSourceFile(); return sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1; }
  import(rel) { return this.module({ file: path.join(this.root, rel) }); }
  evalIn(e, env, file) { return this.ev(e, env, { file }); }

  bindNames(n) {
    if (ts.isIdentifier(n)) return [n.text];
    return n.elements.flatMap((e) => (ts.isOmittedExpression(e) ? [] : this.bindNames(e.name)));
  }
  hoist(stmts, env) {
    for (const st of stmts) {
      if (ts.isFunctionDeclaration(st) && st.body && st.name) {
        let f = null;
        env.vars.set(st.name.text, { lazy: () => (f ??= this.closure(st, env, undefined, st.name.text)) });
      } else if (ts.isClassDeclaration(st) && st.name) env.vars.set(st.name.text, { v: TDZ });
      else if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) for (const n of this.bindNames(d.name)) {
        if (!env.vars.has(n)) env.vars.set(n, { v: st.declarationList.flags & ts.NodeFlags.BlockScoped ? TDZ : undefined });
      }
    }
  }
  lookup(env, n) {
    const e = env.find(n);
    if (!e) this.raise(`${n} is not defined`, "ReferenceError");
    const b = e.vars.get(n);
    if (b.live) return b.live();
    if (b.lazy) return b.lazy();
    if (b.v === TDZ) this.raise(`Cannot access '${n}' before initialization`, "ReferenceError");
    return b.v;
  }

  // ---- functions
  closure(node, env, self, name) {
    const w = this, arrow = ts.isArrowFunction(node);
    const gen = !!node.asteriskToken;
    const f = new Fn(this, name ?? node.name?.getText?.() ?? "function", (thisv, args, newTarget) => {
      const e = new Env(env);
      const fr = { thisv: arrow ? self : { v: thisv }, file: node.getSourceFile().fileName, home: f.home ?? (arrow ? self?.home : undefined), fn: f };
      if (!arrow) fr.thisv.home = f.home;
      if (gen) fr.yields = [];
      if (!arrow) e.vars.set("arguments", { v: new Arr(w, args) });
      node.parameters.forEach((p, i) => {
        if (p.dotDotDotToken) return w.bind(p.name, new Arr(w, args.slice(i)), e, fr, true);
        let v = args[i];
        if (p.initializer) v = w.orDefault(v, p.initializer, e, fr);
        w.bind(p.name, v, e, fr, true);
      });
      if (f.afterParams) f.afterParams(thisv, e, fr);
      let r;
      if (ts.isBlock(node.body)) {
        try { w.block(node.body.statements, new Env(e), fr); } catch (x) { if (x instanceof Return) r = x.v; else throw x; }
      } else r = w.ev(node.body, e, fr);
      return gen ? new Arr(w, fr.yields).asIter(w) : r;
    });
    if (!arrow) { const p = new Obj(this.protos.object); f.props.set("prototype", { v: p }); p.props.set("constructor", { v: f, hidden: true }); }
    f.node = node;
    return f;
  }
  orDefault(v, init, env, fr) {
    if (v === undefined) return this.ev(init, env, fr);
    if (isAbs(v) && v.kind === "top") return v;
    return v;
  }
  bind(pat, v, env, fr, declare) {
    if (ts.isIdentifier(pat)) { env.vars.set(pat.text, { v }); return; }
    if (ts.isObjectBindingPattern(pat)) {
      if (v === null || v === undefined) this.raise("Cannot destructure " + v);
      const used = new Set();
      for (const el of pat.elements) {
        if (el.dotDotDotToken) {
          const o = new Obj(this.protos.object);
          for (const k of this.keysOf(v)) if (!used.has(k)) o.props.set(k, { v: this.get(v, k) });
          this.bind(el.name, o, env, fr); continue;
        }
        const key = el.propertyName ? this.propName(el.propertyName, env, fr) : el.name.text;
        used.add(key);
        let x = this.get(v, key);
        if (el.initializer) x = this.orDefault(x, el.initializer, env, fr);
        this.bind(el.name, x, env, fr);
      }
    } else {
      if (isAbs(v)) { for (const n of this.bindNames(pat)) env.vars.set(n, { v: top("part of " + v.why) }); return; }
      const items = this.iterate(v);
      pat.elements.forEach((el, i) => {
        if (ts.isOmittedExpression(el)) return;
        if (el.dotDotDotToken) return this.bind(el.name, new Arr(this, items.slice(i)), env, fr);
        let x = items[i];
        if (el.initializer) x = this.orDefault(x, el.initializer, env, fr);
        this.bind(el.name, x, env, fr);
      });
    }
  }
  call(f, thisv, args, node) {
    this.tick();
    if (isAbs(f)) return top(`result of ${f.why}`);
    if (!(f instanceof Fn)) this.raise("not a function: " + (node ? node.getText().slice(0, 60) : this.show(f)));
    if (f.cls) this.raise(`Class constructor ${f.name} cannot be invoked without 'new'`);
    if (this.stack.length > 400) throw new Undecided("recursion too deep");
    if (this.opts.hook) { const h = this.opts.hook(this, f, thisv, args); if (h) return h.v; }
    if (f.node) this.visited.add(`${path.relative(this.root, f.node.getSourceFile().fileName)}:${f.name}`);
    this.stack.push({ node: f.node ?? null, name: f.name, file: f.node ? path.relative(this.root, f.node.getSourceFile().fileName) : "", line: f.node ? this.line(f.node) : 0 });
    try { return f.callf(thisv, args); } finally { this.stack.pop(); }
  }
  construct(f, args, node, target = f) {
    this.tick();
    if (isAbs(f)) return top(`instance of ${f.why}`);
    if (!(f instanceof Fn)) this.raise("not a constructor: " + (node ? node.getText().slice(0, 60) : ""));
    if (f.constructf) return f.constructf(args, target);
    const proto = f.props.get("prototype")?.v ?? this.protos.object;
    const o = new Obj(proto);
    const r = this.call(f, o, args, node);
    return r instanceof Obj ? r : o;
  }
  makeClass(node, env, fr) {
    const w = this;
    const cenv = new Env(env);
    const name = node.name?.text ?? "class";
    const ext = node.heritageClauses?.find((h) => h.token === K.ExtendsKeyword)?.types[0];
    const parent = ext ? this.ev(ext.expression, env, fr) : null;
    const proto = new Obj(parent ? (isAbs(parent) ? this.protos.object : parent.props.get("prototype").v) : this.protos.object);
    const ctorNode = node.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
    const cls = new Fn(this, name, () => this.raise(`Class constructor ${name} cannot be invoked without 'new'`), (args, target) => {
      let o;
      const p = target.props.get("prototype").v;
      const initFields = (self) => {
        for (const m of node.members) {
          if (!ts.isPropertyDeclaration(m) || this.isStatic(m)) continue;
          const ffr = { thisv: { v: self, home: cls }, file: node.getSourceFile().fileName, home: cls };
          const v = m.initializer ? this.ev(m.initializer, new Env(cenv), ffr) : undefined;
          if (m.initializer || !self.props?.has(this.propName(m.name, cenv, ffr))) self.props.set(this.propName(m.name, cenv, ffr), { v });
        }
      };
      const tv = { v: undefined, home: cls };
      const enter = () => {
        this.visited.add(`${path.relative(this.root, node.getSourceFile().fileName)}:${name}.constructor`);
        this.stack.push({ name: "new " + name, file: path.relative(this.root, node.getSourceFile().fileName), line: this.line(ctorNode ?? node) });
      };
      const superCall = (a) => {
        let s;
        if (isAbs(parent)) { s = new Obj(p); s.unknownBase = parent; }
        else { s = this.construct(parent, a, node, target); }
        if (s instanceof Obj && s.proto !== p) s.proto = p;
        tv.v = s; initFields(s); return s;
      };
      enter();
      try {
        if (!parent) { tv.v = new Obj(p); if (!ctorNode) initFields(tv.v); }
        if (!ctorNode) { if (parent) superCall(args); return tv.v; }
        const e = new Env(cenv);
        const cfr = { thisv: tv, file: node.getSourceFile().fileName, home: cls, superCall };
        ctorNode.parameters.forEach((q, i) => {
          let v = q.dotDotDotToken ? new Arr(w, args.slice(i)) : args[i];
          if (q.initializer) v = this.orDefault(v, q.initializer, e, cfr);
          this.bind(q.name, v, e, cfr, true);
        });
        const paramProps = () => ctorNode.parameters.forEach((q) => {
          if (ts.getModifiers(q)?.length) tv.v.props.set(q.name.text, { v: this.lookup(e, q.name.text) });
        });
        if (!parent) { paramProps(); initFields(tv.v); }
        else { const sc = cfr.superCall; cfr.superCall = (a) => { const s = sc(a); paramProps(); return s; }; }
        try { this.block(ctorNode.body.statements, new Env(e), cfr); } catch (x) { if (x instanceof Return) { if (x.v instanceof Obj) return x.v; } else throw x; }
        return tv.v;
      } finally { this.stack.pop(); }
    });
    cls.cls = true; cls.parent = parent; cls.node = node;
    if (parent && !isAbs(parent)) cls.proto = parent;
    cls.props.set("prototype", { v: proto });
    proto.props.set("constructor", { v: cls, hidden: true });
    if (node.name) cenv.vars.set(name, { v: cls });
    for (const m of node.members) {
      const target = this.isStatic(m) ? cls : proto;
      if (ts.isMethodDeclaration(m) && m.body) {
        const k = this.propName(m.name, cenv, fr);
        const f = this.closure(m, cenv, undefined, name + "." + String(k)); f.home = cls; f.isStatic = this.isStatic(m);
        target.props.set(k, { v: f, hidden: true });
      } else if (ts.isGetAccessorDeclaration(m) || ts.isSetAccessorDeclaration(m)) {
        const k = this.propName(m.name, cenv, fr);
        const f = this.closure(m, cenv, undefined, name + "." + String(k)); f.home = cls; f.isStatic = this.isStatic(m);
        const d = target.props.get(k) ?? { hidden: true };
        d[ts.isGetAccessorDeclaration(m) ? "get" : "set"] = f; target.props.set(k, d);
      } else if (ts.isPropertyDeclaration(m) && this.isStatic(m)) {
        cls.props.set(this.propName(m.name, cenv, fr), { v: m.initializer ? this.ev(m.initializer, cenv, { thisv: { v: cls }, file: fr.file, home: cls }) : undefined });
      } else if (ts.isClassStaticBlockDeclaration?.(m)) this.block(m.body.statements, new Env(cenv), { thisv: { v: cls }, file: fr.file });
    }
    return cls;
  }
  isStatic(m) { return !!ts.getModifiers(m)?.some((x) => x.kind === K.StaticKeyword); }
  propName(n, env, fr) {
    if (ts.isComputedPropertyName(n)) return this.key(this.ev(n.expression, env, fr));
    if (ts.isIdentifier(n) || ts.isPrivateIdentifier(n)) return n.text;
    if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return n.text;
    if (ts.isNumericLiteral(n)) return String(+n.text);
    throw new Undecided("property name " + n.getText());
  }
  key(v) {
    if (isAbs(v)) throw new Undecided("unknown property key");
    return typeof v === "symbol" ? v : String(v);
  }

  // ---- properties
  get(o, k) {
    this.tick();
    if (o === null || o === undefined) this.raise(`Cannot read properties of ${o} (reading '${String(k)}')`);
    if (isAbs(o)) {
      if (o.kind === "str") { if (k === "length") return fin("length", 0); if (k === "normalize") return new Fn(this, k, (t, a) => this.same("normalize " + (a[0] ?? "NFC"), [o], () => { const r = new Abs("str", `${a[0] ?? "NFC"} of ${o.why}`); r.of = o; r.form = a[0] ?? "NFC"; return r; })); if (k === "trim") return new Fn(this, k, () => this.same("trim", [o], () => { const r = new Abs("str", "trimmed " + o.why, o.lo, o.hi); r.of = o; r.form = "trim"; return r; })); return new Fn(this, String(k), () => new Abs(["trim", "replace", "slice", "toLowerCase", "toUpperCase", "normalize", "replaceAll", "substring"].includes(k) ? "str" : "top", o.why, o.lo, o.hi)); }
      if (o.kind === "fin") return this.get(0, k) instanceof Fn ? new Fn(this, String(k), () => new Abs("str", o.why)) : undefined;
      return top(`${o.why}.${String(k)}`);
    }
    if (typeof o === "string") {
      if (k === "length") return o.length;
      if (typeof k === "string" && /^\d+$/.test(k)) return o[+k];
      return this.strMethod(o, k);
    }
    if (typeof o === "number" || typeof o === "boolean" || typeof o === "bigint") {
      if (typeof Object(o)[k] !== "function") return undefined;
      return new Fn(this, String(k), (t, a) => this.native(() => o[k](...a), a));
    }
    if (typeof o === "symbol") return k === "description" ? o.description : undefined;
    if (o instanceof Arr) {
      if (k === "length") return o.items.length;
      if (typeof k === "string" && /^\d+$/.test(k)) return o.items[+k];
    }
    for (let p = o; p; p = p.proto) {
      if (isAbs(p)) return top(`${p.why}.${String(k)}`);
      const d = p.props.get(k);
      if (d) return d.get ? this.call(d.get, o, []) : "v" in d ? d.v : undefined;
    }
    if (o.unknownBase) return top(`${o.unknownBase.why}.${String(k)}`);
    if (o instanceof Fn) {
      if (k === "name") return o.name;
      if (k === "length") return o.node?.parameters?.length ?? 0;
    }
    return undefined;
  }
  has(o, k) {
    if (isAbs(o)) return new Abs("top", "in " + o.why);
    if (!(o instanceof Obj)) this.raise(`Cannot use 'in' operator to search for '${String(k)}' in ${this.show(o)}`);
    if (o instanceof Arr && typeof k === "string" && /^\d+$/.test(k)) return +k < o.items.length;
    for (let p = o; p; p = p.proto) if (p.props.has(k)) return true;
    return false;
  }
  set(o, k, v) {
    if (o === null || o === undefined) this.raise(`Cannot set properties of ${o} (setting '${String(k)}')`);
    if (!(o instanceof Obj)) return;
    if (o.frozen) this.raise("Cannot assign to a read only object");
    if (o instanceof Arr) {
      if (k === "length") { o.items.length = v; return; }
      if (typeof k === "string" && /^\d+$/.test(k)) { o.items[+k] = v; return; }
    }
    for (let p = o; p && !isAbs(p); p = p.proto) {
      const d = p.props.get(k);
      if (d && (d.get || d.set)) { if (!d.set) this.raise(`Cannot set property ${String(k)} which has only a getter`); this.call(d.set, o, [v]); return; }
      if (d) break;
    }
    if (o.onSet?.(k, v)) return;
    const own = o.props.get(k);
    if (own && "v" in own) own.v = v; else o.props.set(k, { v });
  }
  keysOf(o) {
    if (o instanceof Arr) return [...o.items.keys()].map(String);
    if (o instanceof Obj) return [...o.props].filter(([k, d]) => typeof k === "string" && !d.hidden).map(([k]) => k);
    if (typeof o === "string") return [...o].map((_, i) => String(i));
    return [];
  }
  iterate(v) {
    if (isAbs(v) && v.kind === "str" && this.graphemes) return this.graphemes(v);
    if (isAbs(v)) throw new Undecided("iteration over " + v.why);
    if (typeof v === "string") return [...v];
    if (v instanceof Arr) return [...v.items];
    if (v instanceof MapV) return [...v.m].map(([k, x]) => new Arr(this, [k, x]));
    if (v instanceof SetV) return [...v.m];
    if (v === null || v === undefined) this.raise(`${v} is not iterable`);
    const f = this.get(v, Symbol.iterator);
    if (f === undefined) this.raise("value is not iterable");
    const it = this.call(f, v, []);
    if (it.iterItems) { const r = it.iterItems.slice(it.iterPos); it.iterPos = it.iterItems.length; return r; }
    if (isAbs(it)) throw new Undecided("iteration over an unknown iterator");
    const out = [];
    for (;;) {
      const r = this.call(this.get(it, "next"), it, []);
      if (this.truthy(this.get(r, "done"))) return out;
      out.push(this.get(r, "value"));
      if (out.length > 10000) throw new Undecided("endless iterator");
    }
  }
  iterObj(items) {
    const o = new Obj(this.protos.iterator);
    o.iterItems = items; o.iterPos = 0;
    return o;
  }
  arr(items) { return new Arr(this, items); }
  obj(props, proto = this.protos.object) { const o = new Obj(proto); for (const [k, v] of Object.entries(props)) o.props.set(k, { v }); return o; }
  fn(name, f) { return new Fn(this, name, f); }
  /** Plain JavaScript data as a value of the program. */
  from(v) {
    if (Array.isArray(v)) return this.arr(v.map((x) => this.from(x)));
    if (v && typeof v === "object" && !(v instanceof Obj) && !isAbs(v)) return this.obj(Object.fromEntries(Object.entries(v).map(([k, x]) => [k, this.from(x)])));
    return v;
  }
  native(f, args) {
    if (args.some(isAbs)) return top("library call");
    try { return f(); } catch (e) { this.raise(e.message, e.name); }
  }
  strMethod(s, k) {
    if (k === Symbol.iterator) return this.fn("iterator", () => this.iterObj([...s]));
    if (typeof s[k] !== "function") return undefined;
    return this.fn(String(k), (t, a) => {
      if (a.some(isAbs)) return top("string method");
      const conv = a.map((x) => (x instanceof Regex ? x.re : x instanceof Fn ? (...m) => { const r = this.call(x, undefined, m); if (isAbs(r)) throw new Undecided("replacement"); return r; } : x));
      if (conv.some((x) => x instanceof Obj)) throw new Undecided("string method " + String(k));
      let r;
      try { r = s[k](...conv); } catch (e) { if (e instanceof Undecided || e instanceof Throw) throw e; this.raise(e.message, e.name); }
      return this.wrapResult(r);
    });
  }
  wrapResult(r) {
    if (Array.isArray(r)) { const a = this.arr([...r].map((x) => this.wrapResult(x))); if ("index" in r) a.props.set("index", { v: r.index }); if (r.groups) a.props.set("groups", { v: this.from({ ...r.groups }) }); return a; }
    if (r && typeof r === "object" && Symbol.iterator in r) return this.iterObj([...r].map((x) => this.wrapResult(x)));
    return r;
  }

  // ---- statements
  block(stmts, env, fr) {
    this.hoist(stmts, env);
    for (const s of stmts) this.exec(s, env, fr);
  }
  exec(s, env, fr) {
    this.tick();
    if (this.stack.length) this.stack[this.stack.length - 1].line = this.line(s);
    switch (s.kind) {
      case K.Block: return this.block(s.statements, new Env(env), fr);
      case K.ExpressionStatement: this.ev(s.expression, env, fr); return;
      case K.VariableStatement: return this.decls(s.declarationList, env, fr);
      case K.FunctionDeclaration: case K.InterfaceDeclaration: case K.TypeAliasDeclaration: case K.EmptyStatement: case K.ImportDeclaration: return;
      case K.ClassDeclaration: { const c = this.makeClass(s, env, fr); if (s.name) env.vars.set(s.name.text, { v: c }); return; }
      case K.EnumDeclaration: {
        const o = new Obj(this.protos.object); let next = 0;
        for (const m of s.members) { const v = m.initializer ? this.ev(m.initializer, env, fr) : next; const k = this.propName(m.name, env, fr); o.props.set(k, { v }); if (typeof v === "number") { next = v + 1; o.props.set(String(v), { v: k }); } }
        env.vars.set(s.name.text, { v: o }); return;
      }
      case K.ReturnStatement: throw new Return(s.expression ? this.ev(s.expression, env, fr) : undefined);
      case K.IfStatement:
        if (this.truthy(this.ev(s.expression, env, fr))) this.exec(s.thenStatement, env, fr);
        else if (s.elseStatement) this.exec(s.elseStatement, env, fr);
        return;
      case K.ThrowStatement: { const v = this.ev(s.expression, env, fr); throw new Throw(v, this.where()); }
      case K.ForOfStatement: {
        const v = this.ev(s.expression, env, fr);
        for (const item of this.iterate(v)) {
          const e = new Env(env);
          if (ts.isVariableDeclarationList(s.initializer)) this.bind(s.initializer.declarations[0].name, item, e, fr); else this.assign(s.initializer, item, env, fr);
          if (this.loopBody(s, e, fr)) break;
        }
        return;
      }
      case K.ForInStatement: {
        const v = this.ev(s.expression, env, fr);
        if (isAbs(v)) throw new Undecided("for-in over an unknown");
        for (const k of this.keysOf(v)) {
          const e = new Env(env);
          if (ts.isVariableDeclarationList(s.initializer)) this.bind(s.initializer.declarations[0].name, k, e, fr); else this.assign(s.initializer, k, env, fr);
          if (this.loopBody(s, e, fr)) break;
        }
        return;
      }
      case K.ForStatement: {
        let e = new Env(env);
        if (s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) this.decls(s.initializer, e, fr); else this.ev(s.initializer, e, fr); }
        let n = 0;
        while (!s.condition || this.truthy(this.ev(s.condition, e, fr))) {
          if (++n > (this.opts.maxLoop ?? 5000)) throw new Undecided("a loop does not end");
          const it = new Env(env); for (const [k, b] of e.vars) it.vars.set(k, { ...b });
          if (this.loopBody(s, it, fr)) break;
          e = new Env(env); for (const [k, b] of it.vars) e.vars.set(k, { ...b });
          if (s.incrementor) this.ev(s.incrementor, e, fr);
        }
        return;
      }
      case K.WhileStatement: { let n = 0; while (this.truthy(this.ev(s.expression, env, fr))) { if (++n > (this.opts.maxLoop ?? 5000)) throw new Undecided("a loop does not end"); if (this.loopBody(s, env, fr)) break; } return; }
      case K.DoStatement: { let n = 0; do { if (++n > (this.opts.maxLoop ?? 5000)) throw new Undecided("a loop does not end"); if (this.loopBody(s, env, fr)) break; } while (this.truthy(this.ev(s.expression, env, fr))); return; }
      case K.BreakStatement: throw new Break(s.label?.text);
      case K.ContinueStatement: throw new Continue(s.label?.text);
      case K.LabeledStatement:
        try { s.statement.labelText = s.label.text; this.exec(s.statement, env, fr); } catch (x) { if (x instanceof Break && x.label === s.label.text) return; throw x; }
        return;
      case K.SwitchStatement: {
        const v = this.ev(s.expression, env, fr), e = new Env(env);
        this.hoist(s.caseBlock.clauses.flatMap((c) => [...c.statements]), e);
        let i = s.caseBlock.clauses.findIndex((c) => ts.isCaseClause(c) && this.truthy(this.strictEq(v, this.ev(c.expression, e, fr))));
        if (i < 0) i = s.caseBlock.clauses.findIndex((c) => ts.isDefaultClause(c));
        if (i < 0) return;
        try { for (; i < s.caseBlock.clauses.length; i++) for (const st of s.caseBlock.clauses[i].statements) this.exec(st, e, fr); } catch (x) { if (x instanceof Break && !x.label) return; throw x; }
        return;
      }
      case K.TryStatement: {
        const depth = this.stack.length;
        try {
          try { this.exec(s.tryBlock, env, fr); } catch (x) {
            if (!(x instanceof Throw) || !s.catchClause) throw x;
            this.stack.length = depth;
            const e = new Env(env);
            if (s.catchClause.variableDeclaration) this.bind(s.catchClause.variableDeclaration.name, x.value, e, fr);
            this.exec(s.catchClause.block, e, fr);
          }
        } catch (x) { if (s.finallyBlock && !(x instanceof Undecided)) this.exec(s.finallyBlock, env, fr); throw x; }
        if (s.finallyBlock) this.exec(s.finallyBlock, env, fr);
        return;
      }
      default: throw new Undecided("statement " + K[s.kind]);
    }
  }
  loopBody(s, env, fr) {
    try { this.exec(s.statement, env, fr); } catch (x) {
      if (x instanceof Break && (!x.label || x.label === s.labelText)) return true;
      if (x instanceof Continue && (!x.label || x.label === s.labelText)) return false;
      throw x;
    }
    return false;
  }
  decls(list, env, fr) {
    for (const d of list.declarations) {
      if (!d.initializer && !(list.flags & ts.NodeFlags.BlockScoped)) continue;
      this.bind(d.name, d.initializer ? this.ev(d.initializer, env, fr, d.name.text) : undefined, env, fr, true);
    }
  }

  // ---- expressions
  ev(e, env, fr, nameHint) {
    this.tick();
    switch (e.kind) {
      case K.NumericLiteral: return +e.text.replace(/_/g, "");
      case K.BigIntLiteral: return BigInt(e.text.slice(0, -1));
      case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return e.text;
      case K.TrueKeyword: return true;
      case K.FalseKeyword: return false;
      case K.NullKeyword: return null;
      case K.Identifier: return e.text === "undefined" ? undefined : this.lookup(env, e.text);
      case K.ThisKeyword: return fr.thisv?.v;
      case K.RegularExpressionLiteral: { const i = e.text.lastIndexOf("/"); return new Regex(this, new RegExp(e.text.slice(1, i), e.text.slice(i + 1))); }
      case K.ParenthesizedExpression: case K.AsExpression: case K.NonNullExpression: case K.SatisfiesExpression: case K.TypeAssertionExpression:
        return this.ev(e.expression, env, fr, nameHint);
      case K.AwaitExpression: return this.ev(e.expression, env, fr);
      case K.VoidExpression: this.ev(e.expression, env, fr); return undefined;
      case K.MetaProperty: return this.opts.importMeta ? this.opts.importMeta(this) : top("import.meta");
      case K.ArrowFunction: case K.FunctionExpression: return this.closure(e, env, fr.thisv, nameHint);
      case K.ClassExpression: return this.makeClass(e, env, fr);
      case K.TemplateExpression: {
        let s = e.head.text, abs = null;
        for (const sp of e.templateSpans) {
          const n = this.ev(sp.expression, env, fr), v = this.str(n);
          if (isAbs(v)) abs = v; else s += v;
          s += sp.literal.text;
          if (isAbs(n) && n.kind === "fin" && e.templateSpans.length === 1) { const r = new Abs("str", "text"); r.num = n; r.parts = [e.head.text, sp.literal.text]; return r; }
        }
        return abs ? new Abs("str", "text") : s;
      }
      case K.ArrayLiteralExpression: return new Arr(this, this.args(e.elements, env, fr));
      case K.ObjectLiteralExpression: {
        const o = new Obj(this.protos.object);
        for (const p of e.properties) {
          if (ts.isPropertyAssignment(p)) { const k = this.propName(p.name, env, fr); o.props.set(k, { v: this.ev(p.initializer, env, fr, typeof k === "string" ? k : undefined) }); }
          else if (ts.isShorthandPropertyAssignment(p)) o.props.set(p.name.text, { v: this.lookup(env, p.name.text) });
          else if (ts.isSpreadAssignment(p)) {
            const v = this.ev(p.expression, env, fr);
            if (isAbs(v)) throw new Undecided("spread of an unknown");
            for (const k of this.keysOf(v)) o.props.set(k, { v: this.get(v, k) });
          } else if (ts.isMethodDeclaration(p)) { const k = this.propName(p.name, env, fr); o.props.set(k, { v: this.closure(p, env, undefined, String(k)) }); }
          else { const k = this.propName(p.name, env, fr), d = o.props.get(k) ?? {}; d[ts.isGetAccessorDeclaration(p) ? "get" : "set"] = this.closure(p, env, undefined, String(k)); o.props.set(k, d); }
        }
        return o;
      }
      case K.PropertyAccessExpression: case K.ElementAccessExpression: case K.CallExpression: {
        const r = this.chain(e, env, fr);
        return r.short ? undefined : r.v;
      }
      case K.NewExpression: {
        const f = this.ev(e.expression, env, fr);
        return this.construct(f, e.arguments ? this.args(e.arguments, env, fr) : [], e);
      }
      case K.ConditionalExpression: return this.truthy(this.ev(e.condition, env, fr)) ? this.ev(e.whenTrue, env, fr, nameHint) : this.ev(e.whenFalse, env, fr, nameHint);
      case K.PrefixUnaryExpression: {
        if (e.operator === K.PlusPlusToken || e.operator === K.MinusMinusToken) {
          const v = this.arith(e.operator === K.PlusPlusToken ? "+" : "-", this.ev(e.operand, env, fr), 1);
          this.assign(e.operand, v, env, fr); return v;
        }
        const v = this.ev(e.operand, env, fr);
        if (e.operator === K.ExclamationToken) { if (!isAbs(v)) return !this.truthy(v); if (v.kind === "top") return new Abs("top", v.why); return !this.truthy(v); }
        if (isAbs(v)) {
          if (e.operator === K.PlusToken) return v.kind === "fin" ? v : v.kind === "str" ? fin(v.why, v.lo, v.hi) : top(v.why);
          if (e.operator === K.MinusToken) return v.kind === "fin" ? fin(v.why, -v.hi, -v.lo) : top(v.why);
          return top(v.why);
        }
        const n = v instanceof Obj ? NaN : v;
        if (e.operator === K.MinusToken) return -n;
        if (e.operator === K.PlusToken) return +n;
        return ~n;
      }
      case K.PostfixUnaryExpression: {
        const old = this.ev(e.operand, env, fr);
        this.assign(e.operand, this.arith(e.operator === K.PlusPlusToken ? "+" : "-", old, 1), env, fr);
        return old;
      }
      case K.BinaryExpression: return this.binary(e, env, fr);
      case K.TypeOfExpression: {
        if (ts.isIdentifier(e.expression) && !env.find(e.expression.text)) return "undefined";
        const v = this.ev(e.expression, env, fr);
        if (isAbs(v)) return v.kind === "fin" ? "number" : v.kind === "str" ? "string" : v.kind === "bool" ? "boolean" : new Abs("str", "typeof");
        return v instanceof Fn ? "function" : v instanceof Obj ? "object" : typeof v;
      }
      case K.DeleteExpression: {
        const t = e.expression; const o = this.ev(t.expression, env, fr);
        if (o instanceof Obj) o.props.delete(ts.isPropertyAccessExpression(t) ? t.name.text : this.key(this.ev(t.argumentExpression, env, fr)));
        return true;
      }
      case K.SpreadElement: throw new Undecided("spread");
      case K.YieldExpression: {
        if (!fr.yields) throw new Undecided("yield");
        const v = e.expression ? this.ev(e.expression, env, fr) : undefined;
        if (e.asteriskToken) fr.yields.push(...this.iterate(v)); else fr.yields.push(v);
        if (fr.yields.length > 10000) throw new Undecided("endless generator");
        return undefined;
      }
      case K.TaggedTemplateExpression: return top("tagged template");
      case K.CommaListExpression: throw new Undecided("comma list");
      default: throw new Undecided("expression " + K[e.kind]);
    }
  }
  args(list, env, fr) {
    const out = [];
    for (const a of list) {
      if (ts.isSpreadElement(a)) out.push(...this.iterate(this.ev(a.expression, env, fr)));
      else if (ts.isOmittedExpression(a)) out.push(undefined);
      else out.push(this.ev(a, env, fr));
    }
    return out;
  }
  /** Property accesses and calls, with optional chaining: {v, thisv, short}. */
  chain(e, env, fr) {
    while (ts.isParenthesizedExpression(e) || ts.isNonNullExpression(e)) {
      if (ts.isParenthesizedExpression(e)) { const r = this.chain(e.expression, env, fr); return r.short ? { v: undefined } : r; }
      e = e.expression;
    }
    if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) {
      let o;
      if (e.expression.kind === K.SuperKeyword) {
        const home = fr.home ?? fr.thisv?.home, par = home?.parent;
        if (!par || isAbs(par)) return { v: top("super"), thisv: fr.thisv.v };
        const base = fr.fn?.isStatic ? par : par.props.get("prototype").v;
        let v; for (let p = base; p; p = p.proto) { const d = p.props.get(e.name.text); if (d) { v = d.get ? this.call(d.get, fr.thisv.v, []) : d.v; break; } }
        return { v, thisv: fr.thisv.v };
      }
      const b = this.chain(e.expression, env, fr);
      if (b.short) return b;
      o = b.v;
      if (e.questionDotToken) {
        if (o === null || o === undefined) return { short: true };
        if (isAbs(o) && o.kind === "top" && this.choose(2, false, o.why) === 1) return { short: true };
      }
      const k = ts.isPropertyAccessExpression(e) ? e.name.text : this.ev(e.argumentExpression, env, fr);
      if (isAbs(k)) return { v: top("element at an unknown index"), thisv: o };
      if (this.stack.length) this.stack[this.stack.length - 1].line = this.line(e);
      return { v: this.get(o, typeof k === "symbol" ? k : String(k)), thisv: o };
    }
    if (ts.isCallExpression(e)) {
      if (e.expression.kind === K.SuperKeyword) {
        const sc = fr.superCall; if (!sc) throw new Undecided("super call");
        return { v: sc(this.args(e.arguments, env, fr)) };
      }
      if (e.expression.kind === K.ImportKeyword) return { v: top("dynamic import") };
      const b = this.chain(e.expression, env, fr);
      if (b.short) return b;
      if (e.questionDotToken && (b.v === null || b.v === undefined)) return { short: true };
      const args = this.args(e.arguments, env, fr);
      if (this.stack.length) this.stack[this.stack.length - 1].line = this.line(e);
      return { v: this.call(b.v, b.thisv, args, e.expression) };
    }
    return { v: this.ev(e, env, fr) };
  }
  assign(t, v, env, fr) {
    while (ts.isParenthesizedExpression(t) || ts.isNonNullExpression(t) || ts.isAsExpression(t)) t = t.expression;
    if (ts.isIdentifier(t)) {
      const e = env.find(t.text);
      if (!e) this.raise(t.text + " is not defined", "ReferenceError");
      e.vars.set(t.text, { v }); return;
    }
    if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) {
      const o = this.ev(t.expression, env, fr);
      const k = ts.isPropertyAccessExpression(t) ? t.name.text : this.key(this.ev(t.argumentExpression, env, fr));
      this.set(o, k, v); return;
    }
    if (ts.isArrayLiteralExpression(t)) { const it = this.iterate(v); t.elements.forEach((x, i) => { if (!ts.isOmittedExpression(x)) this.assign(ts.isSpreadElement(x) ? x.expression : x, ts.isSpreadElement(x) ? this.arr(it.slice(i)) : it[i], env, fr); }); return; }
    if (ts.isObjectLiteralExpression(t)) {
      for (const p of t.properties) {
        if (ts.isShorthandPropertyAssignment(p)) this.assign(p.name, this.get(v, p.name.text), env, fr);
        else if (ts.isPropertyAssignment(p)) this.assign(p.initializer, this.get(v, this.propName(p.name, env, fr)), env, fr);
        else throw new Undecided("destructuring");
      }
      return;
    }
    throw new Undecided("assignment to " + K[t.kind]);
  }
  binary(e, env, fr) {
    const op = e.operatorToken.kind;
    const T = {
      [K.PlusEqualsToken]: "+", [K.MinusEqualsToken]: "-", [K.AsteriskEqualsToken]: "*", [K.SlashEqualsToken]: "/", [K.PercentEqualsToken]: "%", [K.AsteriskAsteriskEqualsToken]: "**",
      [K.BarEqualsToken]: "|", [K.AmpersandEqualsToken]: "&",
    };
    const A = {
      [K.PlusToken]: "+", [K.MinusToken]: "-", [K.AsteriskToken]: "*", [K.SlashToken]: "/", [K.PercentToken]: "%", [K.AsteriskAsteriskToken]: "**",
      [K.LessThanToken]: "<", [K.GreaterThanToken]: ">", [K.LessThanEqualsToken]: "<=", [K.GreaterThanEqualsToken]: ">=", [K.BarToken]: "|", [K.AmpersandToken]: "&", [K.CaretToken]: "^",
      [K.LessThanLessThanToken]: "<<", [K.GreaterThanGreaterThanToken]: ">>", [K.GreaterThanGreaterThanGreaterThanToken]: ">>>",
    };
    if (op === K.EqualsToken) { const v = this.ev(e.right, env, fr, ts.isIdentifier(e.left) ? e.left.text : undefined); this.assign(e.left, v, env, fr); return v; }
    if (T[op]) { const v = this.arith(T[op], this.ev(e.left, env, fr), this.ev(e.right, env, fr)); this.assign(e.left, v, env, fr); return v; }
    if (op === K.AmpersandAmpersandToken) { const l = this.ev(e.left, env, fr); return this.truthy(l) ? this.ev(e.right, env, fr) : isAbs(l) ? (l.kind === "fin" ? 0 : false) : l; }
    if (op === K.BarBarToken) { const l = this.ev(e.left, env, fr); return this.truthy(l) ? (isAbs(l) && l.kind === "bool" ? true : l) : this.ev(e.right, env, fr); }
    const nullish = (l) => l === null || l === undefined || (isAbs(l) && l.kind === "top" && this.choose(2, false, l.why) === 1);
    if (op === K.QuestionQuestionToken) { const l = this.ev(e.left, env, fr); return nullish(l) ? this.ev(e.right, env, fr) : l; }
    if (op === K.QuestionQuestionEqualsToken || op === K.BarBarEqualsToken || op === K.AmpersandAmpersandEqualsToken) {
      const l = this.ev(e.left, env, fr);
      const go = op === K.QuestionQuestionEqualsToken ? nullish(l) : op === K.BarBarEqualsToken ? !this.truthy(l) : this.truthy(l);
      if (!go) return l;
      const v = this.ev(e.right, env, fr); this.assign(e.left, v, env, fr); return v;
    }
    if (op === K.CommaToken) { this.ev(e.left, env, fr); return this.ev(e.right, env, fr); }
    const l = ts.isPrivateIdentifier(e.left) ? e.left.text : this.ev(e.left, env, fr), r = this.ev(e.right, env, fr);
    if (op === K.InKeyword) return isAbs(l) ? top("in") : this.has(r, this.key(l));
    if (op === K.InstanceOfKeyword) return this.instanceOf(l, r);
    if (op === K.EqualsEqualsEqualsToken) return this.strictEq(l, r);
    if (op === K.ExclamationEqualsEqualsToken) { const v = this.strictEq(l, r); return isAbs(v) ? (v.kind === "bool" ? !this.truthy(v) : top("!==")) : !v; }
    if (op === K.EqualsEqualsToken || op === K.ExclamationEqualsToken) {
      const v = this.looseEq(l, r);
      if (isAbs(v)) return v.kind === "bool" ? this.truthy(v) === (op === K.EqualsEqualsToken) : v;
      return op === K.EqualsEqualsToken ? v : !v;
    }
    if (A[op]) return this.arith(A[op], l, r);
    throw new Undecided("operator " + K[op]);
  }
  instanceOf(l, r) {
    if (isAbs(l) || isAbs(r)) return top("instanceof");
    if (!(l instanceof Obj)) return false;
    const p = r.props.get("prototype")?.v;
    if (r.accepts) return r.accepts(l);
    for (let q = l.proto; q; q = q.proto) if (q === p) return true;
    return false;
  }
  strictEq(l, r) {
    if (isAbs(l) || isAbs(r)) {
      if (l === r) return l.kind === "top" ? new Abs("top", l.why) : true;
      const [a, b] = isAbs(l) ? [l, r] : [r, l];
      if (a.kind === "fin") {
        if (isAbs(b)) { if (b.kind === "str" || b.kind === "bool") return false; if (b.kind === "top") return new Abs("top", b.why); return this.remember("=", l, r); }
        if (typeof b !== "number") return false;
        if (b < a.lo || b > a.hi || !isFinite(b)) return false;
        return this.remember("=", l, r);
      }
      if (a.kind === "str" && !isAbs(b) && typeof b !== "string") return false;
      if (a.kind === "str" && a.lit && !isAbs(b)) {
        // an arbitrary text: equal to at most one of the texts it is compared with
        const fixed = "text#" + a.id;
        if (this.memo.has(fixed)) return this.memo.get(fixed) === b;
        if (!this.remember("=", a, b)) return false;
        this.memo.set(fixed, b);
        return true;
      }
      if (a.kind === "bool" && !isAbs(b) && typeof b !== "boolean") return false;
      return new Abs("top", a.why);
    }
    return l === r;
  }
  looseEq(l, r) {
    if (l === undefined || l === null) return isAbs(r) ? (r.kind === "top" ? new Abs("top", r.why) : false) : r === undefined || r === null;
    if (r === undefined || r === null) return this.looseEq(r, l);
    if (isAbs(l) || isAbs(r) || l instanceof Obj || r instanceof Obj) return this.strictEq(l, r);
    // eslint-disable-next-line eqeqeq
    return l == r;
  }
  remember(op, a, b) {
    const k = op + (isAbs(a) ? "#" + a.id : String(a)) + "," + (isAbs(b) ? "#" + b.id : String(b));
    if (!this.memo.has(k)) this.memo.set(k, this.choose(2, true) === 0);
    return this.memo.get(k);
  }
  str(v) {
    if (isAbs(v)) return new Abs("str", v.why);
    if (v instanceof Arr) { const p = v.items.map((x) => (x === null || x === undefined ? "" : this.str(x))); return p.some(isAbs) ? new Abs("str", "text") : p.join(","); }
    if (v instanceof Obj) {
      const f = this.get(v, "toString");
      if (f instanceof Fn && f.node) return this.call(f, v, []);
      if (v.isError) return `${this.get(v, "name")}: ${this.get(v, "message")}`;
      return v instanceof Fn ? "function" : "[object Object]";
    }
    return String(v);
  }
  /** The same operation on the same unknowns is the same unknown. */
  same(key, parts, make) {
    const k = key + parts.map((v) => (isAbs(v) ? "#" + v.id : String(v))).join(",");
    if (!this.memo.has(k)) this.memo.set(k, make());
    return this.memo.get(k);
  }
  arith(op, l, r) {
    if ((isAbs(l) || isAbs(r)) && !"<>".includes(op[0]) && [l, r].every((v) => isAbs(v) ? v.kind === "fin" : typeof v === "number")) return this.same("op" + op, [l, r], () => this.arith1(op, l, r));
    return this.arith1(op, l, r);
  }
  arith1(op, l, r) {
    if (isAbs(l) || isAbs(r)) {
      const cmp = "<>".includes(op[0]) && op !== "<<" && op !== ">>" && op !== ">>>";
      const num = (v) => (isAbs(v) ? v.kind === "fin" : typeof v === "number");
      // a missing number is not a number, whatever it is combined with
      const missing = (v) => v === undefined || (typeof v === "number" && Number.isNaN(v));
      if ((missing(l) && num(r)) || (missing(r) && num(l))) { if (cmp) return false; if ("+-*/%**".includes(op)) return NaN; }
      if (op === "+" && l?.kind === "str" && r === "") return l;
      if (op === "+" && r?.kind === "str" && l === "") return r;
      if (op === "+" && ((l?.kind === "fin" && typeof r === "string") || (r?.kind === "fin" && typeof l === "string"))) { const t = new Abs("str", "text"); t.num = isAbs(l) ? l : r; t.parts = isAbs(l) ? ["", r] : [l, ""]; return t; }
      if (op === "+" && (typeof l === "string" || typeof r === "string" || l?.kind === "str" || r?.kind === "str")) return new Abs("str", "text");
      if (!num(l) || !num(r)) return top(`${op} of unknowns`);
      const [a, b, c, d] = [isAbs(l) ? l.lo : l, isAbs(l) ? l.hi : l, isAbs(r) ? r.lo : r, isAbs(r) ? r.hi : r];
      if (cmp) {
        if (Number.isNaN(l) || Number.isNaN(r)) return false;
        // an unknown finite number is strictly between infinities
        const lt = (x, xa, y, ya) => x < y || (x === y && Math.abs(x) === Infinity && xa !== ya);
        const strictly = lt(b, isAbs(l), c, isAbs(r)), never = c <= a ? (d <= a) : d < a;
        if (op === "<") return b < c || (b === c && Math.abs(b) === Infinity) ? true : d <= a ? false : this.remember("<", l, r);
        if (op === ">") return this.arith("<", r, l);
        if (op === "<=") { const v = this.arith("<", r, l); return !v; }
        if (op === ">=") { const v = this.arith("<", l, r); return !v; }
      }
      const nan = [l, r].some((v) => !isAbs(v) && !isFinite(v));
      if (nan) return op === "+" ? (isAbs(l) ? r : l) : op === "-" ? (isAbs(l) ? -r : l) : top(op + " with an infinity");
      const s = (x, y, dflt) => { const v = x + y; return Number.isNaN(v) ? dflt : v; };
      if (op === "+" || op === "-") return linear(l, r, op === "+" ? 1 : -1, op === "+" ? [s(a, c, -Infinity), s(b, d, Infinity)] : [s(a, -d, -Infinity), s(b, -c, Infinity)]);
      if (op === "*") { if (l === r) return square(l); const ps = [a * c, a * d, b * c, b * d].map((x) => (Number.isNaN(x) ? 0 : x)); return fin("product", Math.min(...ps), Math.max(...ps)); }
      if (op === "/") { if (!isAbs(r) && r !== 0) { const q = [a / r, b / r]; return fin("quotient", Math.min(...q), Math.max(...q)); } if (c > 0 || d < 0) return fin("quotient", a >= 0 && c > 0 ? 0 : -Infinity); return top("quotient"); }
      if (op === "**") return r === 2 ? square(l) : top("power");
      if (op === "%") return isAbs(r) && c <= 0 && d >= 0 ? top("remainder") : fin("remainder", a >= 0 ? 0 : -Infinity, Math.max(Math.abs(c), Math.abs(d)));
      return top(op);
    }
    if (l instanceof Obj || r instanceof Obj) {
      if (op === "+") { const a = this.str(l), b = this.str(r); return isAbs(a) || isAbs(b) ? new Abs("str", "text") : a + b; }
      return NaN;
    }
    switch (op) {
      case "+": return l + r; case "-": return l - r; case "*": return l * r; case "/": return l / r; case "%": return l % r; case "**": return l ** r;
      case "<": return l < r; case ">": return l > r; case "<=": return l <= r; case ">=": return l >= r;
      case "|": return l | r; case "&": return l & r; case "^": return l ^ r; case "<<": return l << r; case ">>": return l >> r; case ">>>": return l >>> r;
    }
  }
  show(v, depth = 3) {
    if (isAbs(v)) return `<${v.kind === "fin" ? "some number" : v.why}>`;
    if (typeof v === "string") return JSON.stringify(v);
    if (v instanceof Arr) return depth ? "[" + v.items.map((x) => this.show(x, depth - 1)).join(", ") + "]" : "[…]";
    if (v instanceof Fn) return v.name + "()";
    if (v instanceof Obj) return depth ? "{" + [...v.props].filter(([k, d]) => "v" in d && !d.hidden).map(([k, d]) => String(k) + ": " + this.show(d.v, depth - 1)).join(", ") + "}" : "{…}";
    return String(v);
  }
}
Arr.prototype.asIter = function (w) { return w.iterObj(this.items); };

/** Runs f once for every combination of choices.  Returns the paths' outcomes. */
export function explore(w, f, max = 4000) {
  const out = { paths: 0, ok: 0, violations: [], undecided: [], complete: true };
  let trace = [];
  for (;;) {
    if (out.paths >= max) { out.complete = false; out.undecided.push("more than " + max + " paths"); break; }
    w.reset(trace);
    out.paths++;
    try { f(w); out.ok++; } catch (x) {
      if (x instanceof Throw) {
        const msg = x.value instanceof Obj ? String(w.show(w.get(x.value, "message"))) : x.value instanceof Arr ? w.show(x.value) : w.show(x.value);
        if (w.imprecise) out.undecided.push(`${msg} (only if: ${w.imprecise})`);
        else out.violations.push({ text: "reaches an error: " + msg, where: x.stack });
      } else if (x instanceof Mismatch) {
        if (w.imprecise) out.undecided.push(`${x.message} (only if: ${w.imprecise})`); else out.violations.push({ text: x.message, where: x.where ?? [] });
      } else if (x instanceof Undecided) out.undecided.push(x.message);
      else if (x instanceof RangeError) out.undecided.push("recursion too deep");
      else throw x;
    }
    if (out.violations.length > 20) { out.complete = false; break; }
    while (trace.length && trace[trace.length - 1].pick + 1 >= trace[trace.length - 1].n) trace.pop();
    if (!trace.length) break;
    trace[trace.length - 1].pick++;
  }
  return out;
}
// sums and differences remember what they are sums of, so that adding back what was subtracted gives the number itself
const termsOf = (v) => (isAbs(v) ? v.terms ?? { of: new Map([[v, 1]]), k: 0 } : { of: new Map(), k: v });
function linear(l, r, sign, [lo, hi]) {
  const a = termsOf(l), b = termsOf(r), of = new Map(a.of), k = a.k + sign * b.k;
  for (const [v, c] of b.of) { const n = (of.get(v) ?? 0) + sign * c; if (n === 0) of.delete(v); else of.set(v, n); }
  if (of.size === 0) return k;
  if (of.size === 1 && k === 0) { const [[v, c]] = of; if (c === 1) return v; }
  let lo2 = k, hi2 = k;
  for (const [v, c] of of) { lo2 += c > 0 ? c * v.lo : c * v.hi; hi2 += c > 0 ? c * v.hi : c * v.lo; }
  const f = fin(sign > 0 ? "sum" : "difference", lo2 > lo ? lo2 : lo, hi2 < hi ? hi2 : hi);
  f.terms = { of, k };
  return f;
}
export class Mismatch extends Error { constructor(m, where) { super(m); this.where = where; } }
