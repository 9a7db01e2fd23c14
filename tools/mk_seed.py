"""mk(id, prop, needs, breaks, edits=[(file, old, new)], demo=rust main body)"""
import os, json, subprocess
IT="aftermath-core/input_tree/src/"
DEMO='''#!/bin/bash
# Builds a small program against the current input_tree in a scratch folder and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
input_tree = { path = "$PWD/aftermath-core/input_tree" }
EOF
cd "$scratch"
export CARGO_TARGET_DIR="$scratch/target" CARGO_NET_OFFLINE=true
cargo +1.85.1 run --offline --quiet
'''
PRE='''#![allow(unused)]
use input_tree::{direction::*, editing::editable::Editable, editing::invertible::Invertible, editing::*, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
fn s(v: &str) -> Vec<InputNode> { v.chars().map(|c| InputNode::symbol(c.to_string())).collect() }
fn row(v: Vec<InputNode>) -> InputRow { InputRow::new(v) }
fn ri(v: &[(usize, usize)]) -> RowIndices { RowIndices::new(v.iter().map(|x| RowIndex(x.0, x.1)).collect()) }
fn main() {
'''
def mk(id, prop, needs, breaks, edits, demo):
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    for f,o,n in edits:
        p='/repo/'+f; s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','--','.'])
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.rs','w').write(PRE+demo+'\n}\n')
    open(d+'/demo.sh','w').write(DEMO)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
