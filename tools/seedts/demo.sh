#!/bin/bash
# Bundles the current front end sources with a small program and a stand-in for the browser, and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cp "$here/dom.mjs" "$here/demo.ts" "$scratch/"
cat > "$scratch/bundle.mjs" <<EOF
import { createRequire } from "node:module";
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const none = "export default async function init() {} ; const C = class { constructor() {} get_built_in() {} add_module() {} static make(){} };" +
  ["MathEditorBindings", "ParseModulesBindings", "BoxedParseModule", "ParseModuleCollectionBindings", "MathParserBindings"].map((n) => "export const " + n + " = C;").join("") +
  "export const ParseModulesCreator = new Proxy({}, { get: () => () => ({}) });";
await esbuild.build({
  entryPoints: ["$scratch/demo.ts"], bundle: true, format: "esm", target: "es2022", outfile: "$scratch/out.mjs", logLevel: "error",
  define: { "import.meta.env.DEV": "true" }, alias: { repo: "$PWD/src" },
  plugins: [{ name: "core", setup(b) {
    b.onResolve({ filter: /aftermath-core\/pkg/ }, () => ({ path: "core", namespace: "core" }));
    b.onLoad({ filter: /.*/, namespace: "core" }, () => ({ contents: none, loader: "js" }));
  } }],
});
EOF
node "$scratch/bundle.mjs"
node "$scratch/out.mjs"
