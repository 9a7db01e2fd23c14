// Type-checks the front end against the interface derived from the core.  usage: types.mjs JOB.json OUT.json
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
const ts = createRequire("/opt/veriftools/node/node_modules/")("typescript");
const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const PKG = path.join(job.repo, "aftermath-core/pkg/index.d.ts"), STUBS = path.join(job.repo, "src/__stubs.d.ts");
const stubs = `interface ImportMeta { env: { DEV: boolean; PROD: boolean; MODE: string; [k: string]: any } }
declare module "*.css?inline" { const css: string; export default css; }
declare module "*.css" { const css: string; export default css; }
declare module "*?raw" { const text: string; export default text; }
declare module "*?inline" { const text: string; export default text; }
declare module "*?url" { const text: string; export default text; }
declare module "lil-gui" { const x: any; export default x; export class GUI { [k: string]: any; constructor(...a: any[]); } }
`;
function files(d, out = []) { for (const e of fs.readdirSync(d, { withFileTypes: true })) { const p = path.join(d, e.name); if (e.isDirectory()) files(p, out); else if (/\.(ts|mts|tsx)$/.test(e.name) && !/\.(test|spec)\./.test(e.name)) out.push(p); } return out.sort(); }
function program(pkg) {
  const cfg = ts.readConfigFile(path.join(job.repo, "tsconfig.json"), ts.sys.readFile).config ?? {};
  const options = { ...ts.parseJsonConfigFileContent(cfg, ts.sys, job.repo).options, noEmit: true, types: [], skipLibCheck: true, configFilePath: undefined };
  const host = ts.createCompilerHost(options);
  const over = new Map([[PKG, pkg], [STUBS, stubs]]);
  const { readFile, fileExists, directoryExists } = host;
  host.readFile = (f) => over.get(path.resolve(f)) ?? readFile(f);
  host.fileExists = (f) => over.has(path.resolve(f)) || (!path.resolve(f).startsWith(path.dirname(PKG) + path.sep) && fileExists(f));
  host.directoryExists = (d) => path.resolve(d) === path.dirname(PKG) || directoryExists(d);
  const gsf = host.getSourceFile;
  host.getSourceFile = (f, l, ...r) => (over.has(path.resolve(f)) ? ts.createSourceFile(f, over.get(path.resolve(f)), l, true) : gsf(f, l, ...r));
  return ts.createProgram([...files(path.join(job.repo, "src")), STUBS], options, host);
}
// A type error concerns the interface only if something of the interface takes part in it: a type, class or field declared there
// is the type or symbol of an expression in the construct, or is named in the message.
function concerns(p, d, names) {
  if (!d.file || d.reportsUnnecessary) return false;
  const text = ts.flattenDiagnosticMessageText(d.messageText, "\n");
  if (text.match(/[A-Za-z_]\w*/g)?.some((w) => names.has(w))) return true;
  const checker = p.getTypeChecker();
  const declared = (s) => (s?.declarations ?? []).some((x) => path.resolve(x.getSourceFile().fileName) === PKG);
  const ofType = (t, depth = 0) => !!t && (declared(t.aliasSymbol) || declared(t.symbol) || (depth < 3 && [...(t.isUnionOrIntersection?.() ? t.types : []), ...(t.aliasTypeArguments ?? []), ...((t.objectFlags & ts.ObjectFlags.Reference) ? checker.getTypeArguments(t) : [])].some((x) => ofType(x, depth + 1))));
  const end = d.start + d.length;
  let found = false;
  (function visit(n) {
    if (found || n.end <= d.start || n.getStart(d.file) >= end) return;
    if (n.getStart(d.file) >= d.start && n.end <= end) {
      // the object of an access takes part when only the name is marked
      for (const e of [n, n.parent && ts.isPropertyAccessExpression(n.parent) && n.parent.name === n ? n.parent.expression : null]) {
        if (!e || (!ts.isExpression(e) && !ts.isIdentifier(e))) continue;
        let s = checker.getSymbolAtLocation(e);
        if (s && s.flags & ts.SymbolFlags.Alias) s = checker.getAliasedSymbol(s);
        if (declared(s) || ofType(checker.getTypeAtLocation(e)) || (ts.isExpression(e) && ofType(checker.getContextualType(e)))) found = true;
      }
    }
    ts.forEachChild(n, visit);
  })(d.file);
  return found;
}
function interfaceNames(p) {
  const names = new Set(), sf = p.getSourceFile(PKG);
  sf?.forEachChild((n) => { if (n.name?.text && n.name.text.length > 4 && !ts.isFunctionDeclaration(n)) names.add(n.name.text); });
  // and the front end's own names for them
  for (let grew = true; grew;) {
    grew = false;
    for (const f of p.getSourceFiles()) if (f.fileName.startsWith(path.join(job.repo, "src") + path.sep)) f.forEachChild((n) => {
      if (ts.isTypeAliasDeclaration(n) && !names.has(n.name.text) && n.type.getText(f).match(/[A-Za-z_]\w*/g)?.some((w) => names.has(w))) { names.add(n.name.text); grew = true; }
    });
  }
  return names;
}
function diagnostics(p, names) {
  return ts.getPreEmitDiagnostics(p).map((d) => {
    const at = d.file ? ts.getLineAndCharacterOfPosition(d.file, d.start) : { line: -1, character: 0 };
    return { file: d.file ? path.relative(job.repo, d.file.fileName) : null, line: at.line + 1, column: at.character + 1, code: d.code, text: ts.flattenDiagnosticMessageText(d.messageText, "\n").split("\n").slice(0, 6).join(" / ").slice(0, 700), concerns: names ? concerns(p, d, names) : null };
  });
}
const key = (d) => [d.file, d.line, d.column, d.code].join(":");
const typed = program(job.interface);
const a = diagnostics(typed, interfaceNames(typed)), b = new Set(diagnostics(program(job.unknown)).map(key));
// options passed to the core: the literals that can arrive at each parameter of a method of the bindings
const checker = typed.getTypeChecker(), uses = [], reached = {};
let calls = 0;
for (const sf of typed.getSourceFiles()) {
  if (!sf.fileName.startsWith(path.join(job.repo, "src") + path.sep) || sf.fileName === STUBS) continue;
  (function visit(n) {
    if ((ts.isCallExpression(n) || ts.isNewExpression(n))) {
      const s = checker.getResolvedSignature(n), decl = s?.declaration;
      if (decl && path.resolve(decl.getSourceFile().fileName) === PKG && decl.parent && ts.isClassDeclaration(decl.parent)) {
        calls++;
        const cls = decl.parent.name.text, m = ts.isConstructorDeclaration(decl) ? "new" : decl.name.getText();
        (reached[cls] ??= []).includes(m) || reached[cls].push(m);
        const at = ts.getLineAndCharacterOfPosition(sf, n.getStart());
        decl.parameters.forEach((p, i) => {
          const arg = n.arguments?.[i];
          if (!arg) return;
          const t = checker.getTypeAtLocation(arg), ts_ = t.isUnion() ? t.types : [t];
          // an expression without a contextual type keeps its literal type
          const lits = ts_.filter((x) => x.isStringLiteral()).map((x) => x.value);
          if (lits.length) uses.push({ cls, method: m, param: p.name.getText(), type: p.type?.getText() ?? "", literals: lits, exact: lits.length === ts_.length, file: path.relative(job.repo, sf.fileName), line: at.line + 1 });
        });
      }
    }
    ts.forEachChild(n, visit);
  })(sf);
}
const nodes = typed.getSourceFiles().filter((s) => s.fileName.startsWith(path.join(job.repo, "src") + path.sep) && s.fileName !== STUBS).map((s) => path.relative(job.repo, s.fileName));
fs.writeFileSync(process.argv[3], JSON.stringify({ diagnostics: a.filter((d) => d.concerns && !b.has(key(d))), others: a.filter((d) => !d.concerns || b.has(key(d))), uses, calls, reached, files: nodes }));
