#!/bin/bash
# Bundles the current editor element with a stand-in for the browser and one for the core that records what it is asked, and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cp "$here/dom.mjs" "$here/core.mjs" "$here/demo.ts" "$scratch/"
cat > "$scratch/bundle.mjs" <<EOF
import { createRequire } from "node:module";
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
await esbuild.build({
  entryPoints: ["$scratch/demo.ts"], bundle: true, format: "esm", target: "es2022", outfile: "$scratch/out.mjs", logLevel: "error",
  external: ["lil-gui"], define: { "import.meta.env.DEV": "false" }, alias: { repo: "$PWD/src" },
  plugins: [{ name: "core", setup(b) {
    b.onResolve({ filter: /aftermath-core\/pkg/ }, () => ({ path: "$scratch/core.mjs" }));
    b.onResolve({ filter: /\.css/ }, () => ({ path: "css", namespace: "css" }));
    b.onLoad({ filter: /.*/, namespace: "css" }, () => ({ contents: "export default '';", loader: "js" }));
  } }],
});
EOF
node "$scratch/bundle.mjs"
node "$scratch/out.mjs"
