"""mk(id, prop, needs, breaks, edits=[(file, old, new)], demo=rust main body): planted bugs of caret, parser, serialization.
Works on a clone (default /tmp/mk), so that /repo stays as it is."""
import json, os, shutil, subprocess
CLONE = os.environ.get("CLONE", "/tmp/mk")
KIT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedcore")
PRE = '''#![allow(unused)]
use caret::{caret::*, math_editor::*, primitive::{*, primitive_edit::*}};
use input_tree::{direction::*, editing::{*, editable::Editable, invertible::Invertible}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
use parser::{autocomplete::*, parse_modules::*, parser::MathParser, rule_collections::{arithmetic_rules::*, built_in_rules::*, calculus_rules::*,
    collections_rules::*, comparison_rules::*, core_rules::*, function_rules::*, logic_rules::*, string_rules::*}, syntax_tree::*};
use std::rc::Rc;
fn parser() -> (MathParser, ParseModules) {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let all: Vec<Rc<dyn parser::parse_module::ParseModule>> = vec![b.clone(), Rc::new(CoreRules::new(&mut m, &b)), Rc::new(ArithmeticRules::new(&mut m)),
        Rc::new(CalculusRules::new(&mut m)), Rc::new(CollectionsRules::new(&mut m)), Rc::new(ComparisonRules::new(&mut m)),
        Rc::new(FunctionRules::new(&mut m, &b)), Rc::new(LogicRules::new(&mut m)), Rc::new(StringRules::new(&mut m))];
    (MathParser::new(ParseModuleCollection::new(b, all)), m)
}
fn shown(v: &[InputNode]) -> String {
    let (p, m) = parser();
    p.parse(v).with_display(m.get_rule_name_map()).to_string()
}
fn editor() -> MathEditor { MathEditor::new(Rc::new(parser().0)) }
fn s(v: &str) -> Vec<InputNode> { v.chars().map(|c| InputNode::symbol(c.to_string())).collect() }
fn cat(v: Vec<Vec<InputNode>>) -> Vec<InputNode> { v.concat() }
fn row(v: Vec<InputNode>) -> InputRow { InputRow::new(v) }
fn ri(v: &[(usize, usize)]) -> RowIndices { RowIndices::new(v.iter().map(|x| RowIndex(x.0, x.1)).collect()) }
fn at(v: &[(usize, usize)], o: usize) -> MinimalInputRowPosition { MinimalInputRowPosition { row_indices: ri(v), offset: Offset(o) } }
fn span(v: &[(usize, usize)], a: usize, b: usize) -> MinimalInputRowRange { MinimalInputRowRange { row_indices: ri(v), start: Offset(a), end: Offset(b) } }
/// an editor that shows these elements, with the caret put somewhere
fn holding(v: Vec<InputNode>) -> MathEditor { let mut e = editor(); e.splice_at_range(span(&[], 0, 0), v); e }
fn put(e: &mut MathEditor, a: MinimalInputRowPosition, b: MinimalInputRowPosition) { e.start_selection(a, MoveMode::Char); e.extend_selection(b); e.finish_selection(); }
fn ty(e: &mut MathEditor, v: &str) { for c in v.chars() { e.insert_at_caret(vec![c.to_string()]); } }
fn main() {
'''

def mk(id, prop, needs, breaks, edits, demo):
    d = '/verif/seeded/' + id
    for f, o, n in edits:
        p = CLONE + '/aftermath-core/' + f
        s = open(p).read()
        if s.count(o) != 1:
            print(id, "NOT MADE:", f, s.count(o))
            return
        open(p, 'w').write(s.replace(o, n))
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', CLONE, 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.rs', 'w').write(PRE + demo + '\n}\n')
    shutil.copy(KIT + '/demo.sh', d)
    shutil.copy(KIT + '/Cargo.lock', d)
    shutil.rmtree(d + '/chumsky', ignore_errors=True)
    shutil.copytree(KIT + '/chumsky', d + '/chumsky', ignore=shutil.ignore_patterns(".*"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    run = lambda: subprocess.run(['bash', d + '/demo.sh'], cwd=CLONE, capture_output=True, text=True)
    bad = run()
    subprocess.run(['git', '-C', CLONE, 'checkout', '-q', '--', '.'])
    good = run()
    print(id, "without:", good.returncode, "with:", bad.returncode, (good.stderr[-300:] if good.returncode else ""), "|", bad.stderr[-160:].replace("\n", " "))
