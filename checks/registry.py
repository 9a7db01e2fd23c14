"""Which check decides which property."""

BASE_ASSUMPTIONS = [
    "usize arithmetic stays below 2^64 for sums of lengths and indices of data that exists in memory",
    "grids in the input satisfy the invariant that G02 checks (at least one column, whole rows only)",
    "the standard library's leaf functions (Vec, slices, strings, formatting, integers) mean what engine/models.py says",
    "rustc's MIR for the nightly toolchain means the same as for the pinned toolchain",
]
CARET_ASSUMPTIONS = BASE_ASSUMPTIONS + [
    "the parser library (chumsky), serde_json and thiserror are replaced by stub libraries with the same interface; no obligation interprets their code",
    "scripts have one child row and fractions and roots two, one below the other (what G02 checks of their constructors)",
]
PARSER_ASSUMPTIONS = BASE_ASSUMPTIONS + [
    "the parser library (chumsky) is replaced by a small library with the same interface, which means plain backtracking; its code is interpreted like the rest",
    "unicode_ident's tables are an uninterpreted predicate of the character outside ASCII",
]
FRONT_ASSUMPTIONS = PARSER_ASSUMPTIONS + [
    "the browser's document means what engine/ts/globals.mjs says: elements keep name, attributes and children, positions on the screen are arbitrary finite numbers, font sizes positive",
    "the core hands syntax trees over in the representation that serde derives (checked by V02)",
]
TSONLY = "abstract interpretation of the TypeScript syntax tree (own interpreter) on every element kind with children of every form, compared with an independent reading of MathML"
TSTECH = ("abstract interpretation of the TypeScript syntax tree (own interpreter: unknown numbers with bounds, opaque subtrees, both branches of every undecided condition) over the "
          "names and tree shapes obtained by abstract interpretation of the parser's MIR")
TECH = ("abstract interpretation of the compiler's monomorphic MIR (own interpreter: linear integer facts x symbolic "
        "sequence segments x enum variants, trace partitioned), result compared with the property's specification")

PROPERTIES = {
    "E01": {"module": "checks.edits", "entry": "e01", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "InputTree::apply_edit interpreted on an arbitrary tree and an arbitrary fitting row edit; the whole resulting "
                       "tree is compared with the tree in which only the addressed stretch of the addressed row differs. Row lengths, "
                       "offsets, numbers of elements and grid sizes are arbitrary; the path of the row has at most as many steps as "
                       "the obligations listed."},
    "E02": {"module": "checks.edits", "entry": "e02", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "InputTree::apply_edit interpreted on an arbitrary tree and an arbitrary fitting grid edit of a table; the whole "
                       "resulting tree is compared with the specification cell segment by cell segment. Widths, positions and extents "
                       "are arbitrary; for column edits the number of table rows is the one named in the obligation."},
    "R01": {"module": "checks.rebase", "entry": "r01", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "apply_edit of the stored range and of the stored position interpreted on arbitrary paths (any length, any "
                       "common prefix with the edited row), offsets and edit lengths; compared with the rebased place."},
    "E03": {"module": "checks.edits", "entry": "e03", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "the inverse functions interpreted on arbitrary edits of every kind, edit followed by inverse interpreted on an "
                       "arbitrary tree (row edits and grid edits), and apply_edits on a list compared with applying its edits one by one."},
    "E04": {"module": "checks.selection", "entry": "e04", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "the three edit builders interpreted on an arbitrary valid range or position (any row, both directions, collapsed "
                       "or not) and arbitrary inserted elements; the returned edits and the returned place are compared with the "
                       "specification."},
    "R02": {"module": "checks.rebase", "entry": "r02", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "rebasing interpreted on an arbitrary table edit and an arbitrary stored place outside the table (paths of any length), and the shift every table edit announces."},
    "O01": {"module": "checks.selection", "entry": "o01", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "every comparison of positions interpreted on two arbitrary paths (any lengths, any common prefix) and offsets "
                       "and compared with document order, which is a total order by construction."},
    "S01": {"module": "checks.selection", "entry": "s01", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "every constructor, accessor and conversion of ranges and positions interpreted on arbitrary valid inputs and "
                       "compared with the specification; reading a stored place back is analysed for paths of the lengths listed."},
    "S02": {"module": "checks.selection", "entry": "s02", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "range_from_positions interpreted on an arbitrary tree and two arbitrary valid positions, one obligation per pair "
                       "of path lengths; row, path, offsets and direction of the result are compared with the specification."},
    "F01": {"module": "checks.walking", "entry": "f01", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "every step of the focus API interpreted on an arbitrary row focus (any tree, any path above it) and arbitrary indices; the result, and the focus after stepping back, are compared with the specification."},
    "F02": {"module": "checks.walking", "entry": "f02", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "offset_to_index interpreted on an arbitrary row, offset inside it and both directions."},
    "G01": {"module": "checks.grids", "entry": "g01", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "every grid lookup, conversion and step interpreted on an arbitrary rectangular grid and arbitrary indices (including indices outside and sums beyond the integer range)."},
    "G02": {"module": "checks.grids", "entry": "g02", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "grid construction, the constructors of every element kind and the mutating grid operations interpreted on arbitrary inputs."},
    "G03": {"module": "checks.grids", "entry": "g03", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "rectangles, views and grid selections made from two arbitrary cells of an arbitrary grid, and stored selections with paths of the lengths listed."},
    "P01": {"module": "checks.printing", "entry": "p01", "level": "other", "technique": TECH, "assumptions": BASE_ASSUMPTIONS,
            "explain": "the Display implementations interpreted on arbitrary symbols, rows and containers of the sizes listed (the characters, elements, cells and widths themselves are arbitrary)."},
    "U01": {"module": "checks.history", "entry": "u01", "probe": "caret_probe", "level": "other", "technique": TECH, "assumptions": CARET_ASSUMPTIONS,
            "explain": "every operation of the undo history interpreted on a history with arbitrary recorded and undone actions, and every "
                       "sequence of operations of the listed length from the empty history; the actions handed out and the history afterwards "
                       "are compared with the specification."},
    "U02": {"module": "checks.history", "entry": "u02", "probe": "caret_probe", "level": "other", "technique": TECH, "assumptions": CARET_ASSUMPTIONS,
            "explain": "the inverse of a recorded action interpreted on an arbitrary action with any number of edits (the inverse of a single "
                       "edit is an uninterpreted function here, E03 decides it)."},
    "U03": {"module": "checks.editor", "entry": "u03", "probe": "caret_probe", "level": "other", "technique": TECH, "assumptions": CARET_ASSUMPTIONS,
            "explain": "every operation of the editor interpreted on an arbitrary editor (any formula, history, cached parse result and caret at "
                       "the depths listed); formula, cache, history and caret afterwards are compared with the specification. Completions are "
                       "arbitrary lists of the lengths listed."},
    "M01": {"module": "checks.caret", "entry": "m01", "probe": "caret_probe", "level": "other", "technique": TECH, "assumptions": CARET_ASSUMPTIONS,
            "explain": "caret movement interpreted on an arbitrary row (any path above it) with an arbitrary caret or selection, for every "
                       "direction; vertical movement looks at all enclosing rows, so there the row is at most as deep as the obligations listed."},
    "M02": {"module": "checks.caret", "entry": "m02", "probe": "caret_probe", "level": "other", "technique": TECH, "assumptions": CARET_ASSUMPTIONS,
            "explain": "deleting at the caret and inserting at a selection interpreted on an arbitrary row (any path above it) and an arbitrary "
                       "caret; edits and caret are compared with the specification. Tables around the caret have at most as many cells as the "
                       "obligations choose (every width up to three), their content is arbitrary."},
    "M03": {"module": "checks.editor", "entry": "m03", "probe": "caret_probe", "level": "other", "technique": TECH, "assumptions": CARET_ASSUMPTIONS,
            "explain": "asking for the selection and copying interpreted on an arbitrary editor whose caret's ends lie at arbitrary places at most as "
                       "many steps down as the obligations say; copying rectangles of cells is not implemented and left out."},
    "W01": {"module": "checks.wire", "entry": "w01", "probe": "caret_probe", "level": "other", "technique": TECH,
            "assumptions": CARET_ASSUMPTIONS + ["the text format (serde_json) keeps the structure it is given: struct and variant names, field names, sequences, numbers, strings",
                                                "rows inside rows are read back by induction over their depth"],
            "explain": "the code serde generates for writing and reading is interpreted against a document that keeps exactly what the data format is given, "
                       "one value of every type with arbitrary content; lists are at most as long as the obligations say."},
    "A01": {"module": "checks.complete", "entry": "a01", "probe": "caret_probe", "level": "other", "technique": TECH, "assumptions": CARET_ASSUMPTIONS,
            "explain": "the matcher interpreted on a rule text and on symbols of arbitrary characters (their length in bytes included); rule and row are at "
                       "most as long as the obligations say, containers and symbols of no or several characters are mixed in."},
    "A02": {"module": "checks.complete", "entry": "a02", "probe": "caret_probe", "level": "other", "technique": TECH,
            "assumptions": CARET_ASSUMPTIONS + ["what the matcher answers is arbitrary here (A01 decides it); comparing two rules is one fact"],
            "explain": "the editor's operations on completions interpreted on an arbitrary formula and caret, with arbitrary answers of the matcher; the "
                       "questions it is asked, the formula and the caret afterwards are compared with the specification."},
    "X01": {"module": "checks.syntax", "entry": "x01", "probe": "parser_probe", "level": "other", "technique": TECH, "assumptions": PARSER_ASSUMPTIONS,
            "explain": "the parser built from the always-present rules, and the one with all rules, interpreted on every kind of container (enumerated from the type, so "
                       "new kinds are included) alone and in the surroundings listed; every node's name is looked up among the registered names."},
    "P02": {"module": "checks.printing_syntax", "entry": "p02", "probe": "parser_probe", "level": "other", "technique": TECH, "assumptions": PARSER_ASSUMPTIONS,
            "explain": "the printing of syntax trees interpreted on nodes with arbitrary subtrees (each printed subtree stays one part of the output), arbitrary characters in "
                       "leaves, tables of any width with the listed number of cells, and arbitrary bytes as value."},
    "X02": {"module": "checks.pratt", "entry": "x02", "probe": "parser_probe", "level": "other", "technique": TECH, "assumptions": PARSER_ASSUMPTIONS,
            "explain": "the operator loop interpreted on rows of tokens with arbitrary roles and arbitrary strengths (two operators of every kind, any numbers, "
                       "any kind of assumed operator); the tree is compared with an independent recursive reading of the rules."},
    "X03": {"module": "checks.syntax", "entry": "x03", "probe": "parser_probe", "level": "other", "technique": TECH, "assumptions": PARSER_ASSUMPTIONS,
            "explain": "every constructor of syntax nodes interpreted on arbitrary names, ranges and children (any subtrees; up to the number of children listed)."},
    "X04": {"module": "checks.syntax", "entry": "x04", "probe": "parser_probe", "level": "other", "technique": TECH, "assumptions": PARSER_ASSUMPTIONS,
            "explain": "the name table interpreted on every sequence of registrations of the listed length over the listed number of different names."},
    "X05": {"module": "checks.pratt", "entry": "x05", "probe": "parser_probe", "level": "other", "technique": TECH, "assumptions": PARSER_ASSUMPTIONS,
            "explain": "the operator loop interpreted on rows of tokens with arbitrary roles and strengths; the leaves of the tree are compared with the tokens."},
    "X06": {"module": "checks.syntax", "entry": "x06", "probe": "parser_probe", "level": "other", "technique": TECH, "assumptions": PARSER_ASSUMPTIONS,
            "explain": "the parser with all rules interpreted on formulas with arbitrary one-letter identifiers (and digits) as operands and every pair of operators whose "
                       "order the conventions fix; the tree is compared with the conventional reading."},
    "X07": {"module": "checks.syntax", "entry": "x07", "probe": "parser_probe", "level": "other", "technique": TECH, "assumptions": PARSER_ASSUMPTIONS,
            "explain": "the parser with all rules interpreted on every row of up to two arbitrary one-character symbols and on the surroundings listed with one arbitrary "
                       "symbol; no panic is reachable, and leaves, ranges and rows of the tree are compared with the tokens."},
    "V01": {"module": "checks.frontend", "entry": "v01", "kind": "front", "level": "other", "technique": TSTECH, "assumptions": FRONT_ASSUMPTIONS,
            "explain": "the names the rule modules register are read off the interpreted Rust sources; the renderer's constructor and its dispatch are interpreted from the "
                       "TypeScript sources with exactly these names, in development and production builds."},
    "V03": {"module": "checks.frontend", "entry": "v03", "kind": "front", "level": "other", "technique": TSTECH, "assumptions": FRONT_ASSUMPTIONS,
            "explain": "the Rust parser is interpreted on rows of every pair of token classes and every container in the surroundings listed; every kind of node with every "
                       "kind of children that occurs is rendered by interpreting the TypeScript sources with opaque subtrees (so, by induction, trees of any size), and every tree as a whole."},
    "V04": {"module": "checks.frontend", "entry": "v04", "kind": "front", "level": "other", "technique": TSTECH, "assumptions": FRONT_ASSUMPTIONS,
            "explain": "for every tree of V03: every row by its path, every caret place of every row, every selection within a row (small trees) and the place nearest to an "
                       "arbitrary point, with arbitrary positions of the elements on the screen (smallest trees)."},
}
PROPERTIES["V05"] = {
    "module": "checks.frontend", "entry": "v05", "kind": "front", "level": "other", "technique": TSONLY, "assumptions": FRONT_ASSUMPTIONS[-2:-1],
    "explain": "fromElement interpreted on every element name with zero to four children, the children taking every form of result the conversion has (symbols, none, a row, a container, "
               "a container behind symbols, an unknown element), two levels deep, and on tables of every shape up to three by three."}

PROPERTIES["V06"] = {
    "module": "checks.frontend", "entry": "v06", "kind": "front", "level": "other", "technique": TSTECH, "assumptions": FRONT_ASSUMPTIONS + [
        "the core is only known by the operations its bindings list; each may leave any formula and any carets behind, and paste may fail"],
    "explain": "the editor element interpreted from its TypeScript sources with a core that only records what it is asked and hands out a different formula after every change: arbitrary keys, kinds of input and "
               "clipboards, the sequences of pointer events listed, changes of the attribute, and every caret and selection (in rows, nested rows and tables) of the formulas listed; what was asked of the core, and the "
               "formula, carets and highlights on the screen afterwards, are compared with the specification."}

PROPERTIES["V02"] = {
    "module": "checks.bindings", "entry": "v02", "kind": "front", "level": "other",
    "technique": "type checking of the front end against the interface derived from the core's Rust sources; abstract interpretation of the core for options it does not implement",
    "assumptions": ["the interface wasm-bindgen and tsify generate is the one derived here from the same attributes (their generators are not installed)",
                    "the TypeScript type checker is sound for the code it accepts, apart from values declared any"],
    "explain": "every struct and enum with a Tsify derive and every wasm_bindgen class of the Rust sources is translated into a declaration; JsValue parameters and results get the type the Rust code reads or writes them as; "
               "the front end is type-checked against these declarations and against unconstrained ones, and every difference is reported. Option literals that reach the core are followed into the interpreted core."}

PENDING = "not yet built"
NOT_APPLICABLE = {
    "N01": "termination and totality of the parser over rows of every length and every rule set need an induction over run-time values that no "
           "static argument in reach makes; X05 and X07 decide it for short rows, X02 and X03 decide its structural clauses",
    "N02": "quantifies over rendered layout (browser geometry) that exists only at run time; V04 decides that a point leads to an existing caret position",
    "N05": "rebasing of places inside the edited table is todo!() and the edit does not carry the table's width, so there is no behaviour to decide; places outside the table are R02",
}
