"""U03: operations of the editor keep formula, parse result, history and caret together."""
from .base import *
from .selection import document_order, mk_edit, off_val, focus_row, focus_path
from .history import stacks, callees, opaque_edit_inverse

RESIZABLE = ("Table",)


# ---- the editor as a value ------------------------------------------------------------------------
class Editor:
    """Where the editor keeps what the property speaks about (found by type; the fields are private)."""

    def __init__(self, x, ty):
        self.ty = ty
        self.at = {}
        for i, (n, t) in enumerate(x.prog.fields(ty)):
            for what, suffix in (("tree", "InputTree"), ("caret", "MinimalCaret"), ("history", "UndoRedoManager"), ("mover", "NavigationSettings"),
                                 ("parser", "Rc")):
                if (x.prog.adt(t) or "").endswith("::" + suffix):
                    self.put(what, i)
            if (x.prog.adt(t) or "").endswith("option::Option"):
                inner = x.prog.fields(t, x.prog.variant_index(t, "Some"))[0][1]
                if (x.prog.adt(inner) or "").endswith("::SyntaxNode"):
                    self.put("parsed", i)
        if set(self.at) != {"tree", "caret", "history", "mover", "parser", "parsed"}:
            raise Unknown("representation of the editor")

    def put(self, what, i):
        if what in self.at:
            raise Unknown("representation of the editor")
        self.at[what] = i

    def get(self, x, v, what):
        return x.ctx.field(v, self.at[what])

    def with_(self, x, v, **kw):
        v = x.ctx.expand(v)
        new = list(v.fields)
        for k, w in kw.items():
            new[self.at[k]] = w
        return Agg(v.ty, v.variant, new)


def opaque_matches(x, most):
    """The completions offered for a text are A01's business: here any list of at most `most` of them."""
    state = {"n": 0}

    def go(it, args, call):
        caret, least = args[2], args[3]
        if not x.decide(x.ge(x.ctx.vlen(x.it.seq(args[1])), caret)):
            x.fail("completions are looked for in front of a place inside the elements at hand")
        k = x.ctx.choose(list(range(most + 1)))
        vec = call.rty
        ety = x.ctx.elem_ty(vec)
        out = []
        for _ in range(k):
            state["n"] += 1
            m = x.sym("match%d" % state["n"], ety)
            n = x.ctx.get(m, "input_match_length")
            x.assume(x.ge(caret, n), x.ge(n, least), x.ge(n, 1))
            out.append(Elem(Cell(m)))
        return VecV(out, ety)
    for root in ("parser_matches", "rule_matches"):
        fids = callees(x, root)
        if len(fids) != 1:
            raise Unknown("who computes completions")
        x.it.opaque[fids[0]] = go


def setup_editor(x, root, places, most=0):
    """An arbitrary editor whose caret lies inside its formula.  places: (steps of the start, steps of the end) or
    one number for a collapsed caret.  Returns (Editor, value, tree, [start row, end row])."""
    opaque_matches(x, most)
    ty = x.to(x.argtys(root)[0])
    e = x.sym("editor", ty)
    E = Editor(x, ty)
    tree, caret = E.get(x, e, "tree"), E.get(x, e, "caret")
    if isinstance(places, int):
        a = x.ctx.get(caret, "start_position")
        caret = mk_like(x, caret, end_position=a)
        e = E.with_(x, e, caret=caret)
        ends = [(a, places)]
    else:
        ends = list(zip((x.ctx.get(caret, "start_position"), x.ctx.get(caret, "end_position")), places))
    rows = []
    chains = []
    for p, depth in ends:
        path = x.ctx.get(p, "row_indices")
        x.assume(x.eq(path_len(x, path), depth))
        rs = walk(x, x.ctx.get(tree, "root"), path, depth)
        chains.append((path, rs))
        rows.append(rs[-1])
        x.assume(x.ge(row_len(x, rows[-1]), off(x, x.ctx.get(p, "offset"))))
    if len(chains) == 2:
        no_grid_selection(x, chains)
    return E, e, tree, rows


def no_grid_selection(x, chains):
    """Selections of table cells are not implemented in the editor; leave them out."""
    (pa, ra), (pb, rb) = chains
    la, lb = only_vec(x, pa), only_vec(x, pb)
    L, how, ea, eb = x.ctx.common_prefix(la, lb, la.ety)
    if how != "diff":
        return
    k = x.ctx.norm(L).const()
    if k is None:
        raise Unknown("length of the common path")
    i = x.ctx.field(ea, 0)
    if not x.decide(x.eq(i, x.ctx.field(eb, 0))):
        return
    node = x.ctx.index(row_vec(x, ra[k]), i)
    vi = x.prog.variant_index(node.ty, "Container")
    for f, (n, t) in enumerate(x.prog.fields(node.ty, vi)):
        if x.prog.is_enum(t):
            kind = x.ctx.field(node, f, variant=vi)
            if x.prog.t(t)["variants"][x.ctx.variant(kind)]["name"] in RESIZABLE:
                raise Dead()


def after_edits(x, tree, edits):
    """The formula after a list of edits (E01, E02, E03 decide what that means)."""
    r = x.ref(x.ctx.copyval(tree), True)
    v = x.ctx.vec(edits)
    x.run("tree_apply_edits", r, x.ref(v))
    return x.ctx.read(r)


def with_action(x, history, action):
    r = x.ref(x.ctx.copyval(history), True)
    x.run("manager_push", r, action)
    return x.ctx.read(r)


def nothing_cached(x, E, got):
    o = E.get(x, got, "parsed")
    return x.ctx.is_variant(o, "None")


def state_is(x, E, before, ref, edits, caret_after, what, recorded=True):
    """The editor behind `ref` is `before` with `edits` (a vector value or None) done and the caret at `caret_after`."""
    got = x.ctx.read(ref)
    n = None if edits is None else x.ctx.norm(x.ctx.vlen(x.ctx.vec(edits))).const()
    tree, history = E.get(x, before, "tree"), E.get(x, before, "history")
    if edits is None or n == 0:
        x.need(E.get(x, got, "tree"), tree, what + ": the formula")
        if not nothing_cached(x, E, got):
            x.need(E.get(x, got, "parsed"), E.get(x, before, "parsed"), what + ": the cached parse result")
        x.need(E.get(x, got, "history"), history, what + ": the history")
    else:
        x.need(E.get(x, got, "tree"), after_edits(x, tree, edits), what + ": the formula")
        if not nothing_cached(x, E, got):
            x.fail(what + ": the parse result of the old formula is kept")
        if recorded:
            aty = x.argtys("caret_edit_into_action")[0]
            act = mk_struct(x, aty, caret_before=E.get(x, before, "caret"), caret_after=caret_after, edits=edits)
            x.need(E.get(x, got, "history"), with_action(x, history, x.run("caret_edit_into_action", act)), what + ": the history")
    x.need(E.get(x, got, "caret"), caret_after, what + ": the caret")


def caret_at(x, E, e, a, b=None):
    return mk_like(x, E.get(x, e, "caret"), start_position=a, end_position=a if b is None else b)


def selection_of(x, E, e):
    """The range the caret selects (S02 decides range_from_positions; never a grid here)."""
    c = x.run("caret_from_minimal", x.ref(E.get(x, e, "tree")), x.ref(E.get(x, e, "caret")))
    t = E.get(x, e, "tree")
    tr = x.ref(t)
    pa = x.run("position_from_minimal", x.run("tree_root_focus", tr), x.ref(x.ctx.get(E.get(x, e, "caret"), "start_position")))
    pb = x.run("position_from_minimal", x.run("tree_root_focus", tr), x.ref(x.ctx.get(E.get(x, e, "caret"), "end_position")))
    return x.run("range_from_positions", tr, x.ref(pa), x.ref(pb))


# ---- without completions: what every operation does -------------------------------------------------
def op_ob(op, places, arg=None):
    def ob(x):
        root = "editor_" + op
        E, e, tree, rows = setup_editor(x, root, places)
        tys = x.argtys(root)
        ref = x.ref(e, True)
        e = x.ctx.copyval(e)
        caret = E.get(x, e, "caret")
        what = op.replace("_", " ")
        if op == "move_caret":
            d, m = mk_variant(x, tys[1], arg), mk_variant(x, tys[2], "Char")
            sel = selection_of(x, E, e)
            to = option(x, x.run("move_caret_range", x.ref(E.get(x, e, "mover")), sel, d, m))
            want = caret
            if to is not None:
                to = x.run("position_to_minimal", x.ref(to))
                want = caret_at(x, E, e, to)
            x.run(root, ref, d, m)
            state_is(x, E, e, ref, None, want, what)
        elif op == "select_with_caret":
            d, m = mk_variant(x, tys[1], arg), mk_variant(x, tys[2], "Char")
            sel = selection_of(x, E, e)
            end = x.run("range_end_position", x.ref(sel))
            to = option(x, x.run("move_caret_range", x.ref(E.get(x, e, "mover")), x.run("range_from_position", x.ref(end)), d, m))
            want = caret
            if to is not None:
                want = caret_at(x, E, e, x.ctx.get(caret, "start_position"), x.run("position_to_minimal", x.ref(to)))
            x.run(root, ref, d, m)
            state_is(x, E, e, ref, None, want, what)
        elif op == "remove_at_caret":
            rm, m = mk_variant(x, tys[1], arg), mk_variant(x, tys[2], "Char")
            sel = selection_of(x, E, e)
            opaque_removal(x)
            res = option(x, x.run("do_remove_at_caret", x.ref(E.get(x, e, "mover")), x.ref(sel), rm))
            edits, want = None, caret
            if res is not None:
                edits = x.ctx.field(res, 0)
                want = caret_at(x, E, e, x.ctx.field(res, 1))
            x.run(root, ref, rm, m)
            state_is(x, E, e, ref, edits, want, what)
        elif op == "insert_at_caret":
            k = arg
            sv = [x.sym("s%d" % i, x.ctx.elem_ty(tys[1])) for i in range(k)]
            nty = x.ctx.elem_ty(x.argtys("do_insert_at_range")[1])
            nodes = VecV([Elem(Cell(mk_variant(x, nty, "Symbol", s))) for s in sv], nty)
            sel = selection_of(x, E, e)
            res = option(x, x.run("do_insert_at_range", x.ref(sel), nodes))
            want = caret_at(x, E, e, x.ctx.field(res, 1))
            x.run(root, ref, VecV([Elem(Cell(s)) for s in sv], x.ctx.elem_ty(tys[1])))
            state_is(x, E, e, ref, x.ctx.field(res, 0), want, what)
        elif op == "paste":
            fids = callees(x, "deserialize")
            if len(fids) != 1:
                raise Unknown("who reads pasted text")
            ok = x.ctx.choose([True, False])
            rty = x.prog.fns[x.root("deserialize")]["body"]["locals"][0]["ty"]
            nty = x.argtys("do_insert_at_range")[1]
            nodes = x.sym("nodes", nty)
            x.assume(x.ge(x.ctx.vlen(x.ctx.vec(nodes)), 1))
            ev = x.prog.fields(rty, x.prog.variant_index(rty, "Err"))[0][1]
            res = mk_variant(x, rty, "Ok", nodes) if ok else mk_variant(x, rty, "Err", x.sym("err", ev))
            x.it.opaque[fids[0]] = lambda it, args, call: res
            got = x.run(root, ref, x.sym("text", tys[1]), x.sym("kind", tys[2]))
            x.need(got, ok, "whether pasting succeeds")
            if not ok:
                state_is(x, E, e, ref, None, caret, what)
                return
            sel = selection_of(x, E, e)
            r = option(x, x.run("do_insert_at_range", x.ref(sel), nodes))
            state_is(x, E, e, ref, x.ctx.field(r, 0), caret_at(x, E, e, x.ctx.field(r, 1)), what)
        elif op == "select_all":
            x.run(root, ref)
            p = x.ctx.get(caret, "start_position")
            pth = x.ctx.get(p, "row_indices")
            empty = with_vec(x, pth, VecV((), only_vec(x, pth).ety))
            oty = x.ctx.get(p, "offset").ty
            z = mk_struct(x, p.ty, row_indices=empty, offset=off_val(x, oty, ZERO))
            n = mk_struct(x, p.ty, row_indices=empty, offset=off_val(x, oty, row_len(x, x.ctx.get(tree, "root"))))
            state_is(x, E, e, ref, None, caret_at(x, E, e, z, n), what)
        elif op in ("start_selection", "extend_selection"):
            p = x.sym("place", tys[1])
            path = x.ctx.get(p, "row_indices")
            x.assume(x.eq(path_len(x, path), arg))
            row = walk(x, x.ctx.get(tree, "root"), path, arg)[-1]
            x.assume(x.ge(row_len(x, row), off(x, x.ctx.get(p, "offset"))))
            if op == "start_selection":
                x.run(root, ref, p, x.sym("mode", tys[2]))
                want = caret_at(x, E, e, p)
            else:
                x.run(root, ref, p)
                want = caret_at(x, E, e, x.ctx.get(caret, "start_position"), p)
            state_is(x, E, e, ref, None, want, what)
        elif op == "finish_selection":
            x.run(root, ref)
            state_is(x, E, e, ref, None, caret, what)
        elif op == "finish_autocomplete":
            x.run(root, ref, arg)
            state_is(x, E, e, ref, None, caret, what)
        elif op in ("open_autocomplete",):
            x.run(root, ref)
            state_is(x, E, e, ref, None, caret, what)
        elif op == "get_syntax_tree":
            fids = callees(x, "parser_parse")
            if len(fids) != 1:
                raise Unknown("who parses")
            nty = x.prog.fns[x.root("parser_parse")]["body"]["locals"][0]["ty"]
            row = x.ctx.get(tree, "root")

            def parse(it, args, call):
                x.need(it.seq(args[1]), row_vec(x, row), "the formula that is parsed")
                return App("parse", call.rty, (row,))
            x.it.opaque[fids[0]] = parse
            got = deref(x, x.run(root, ref))
            p = E.get(x, e, "parsed")
            old = option(x, p)
            x.need(got, App("parse", nty, (row,)) if old is None else old, "the syntax tree handed out")
            now = x.ctx.read(ref)
            x.need(E.get(x, now, "tree"), tree, what + ": the formula")
            x.need(E.get(x, now, "history"), E.get(x, e, "history"), what + ": the history")
            x.need(E.get(x, now, "caret"), caret, what + ": the caret")
            kept = option(x, E.get(x, now, "parsed"))
            if kept is not None:
                x.need(kept, got, "the parse result kept")
        else:
            raise Missing(op)
    return ob


def splice_ob(places, depth, k):
    """Replacing a range anywhere: recorded, and the caret follows its content."""
    def ob(x):
        root = "editor_splice_at_range"
        E, e, tree, rows = setup_editor(x, root, places)
        tys = x.argtys(root)
        r = x.sym("range", tys[1])
        path = x.ctx.get(r, "row_indices")
        x.assume(x.eq(path_len(x, path), depth))
        row = walk(x, x.ctx.get(tree, "root"), path, depth)[-1]
        n = row_len(x, row)
        s, t = off(x, x.ctx.get(r, "start")), off(x, x.ctx.get(r, "end"))
        x.assume(x.ge(n, s), x.ge(n, t))
        vals = x.sym("values", tys[2])
        x.assume(x.eq(x.ctx.vlen(x.ctx.vec(vals)), 0) if k == 0 else x.ge(x.ctx.vlen(x.ctx.vec(vals)), 1))
        ref = x.ref(e, True)
        e = x.ctx.copyval(e)
        rng = x.run("range_from_minimal", x.run("tree_root_focus", x.ref(tree)), x.ref(r))
        res = x.run("replace_range", x.ref(rng), vals)
        edits = x.ctx.field(res, 0)
        caret = E.get(x, e, "caret")
        ends = []
        for nme in ("start_position", "end_position"):
            p = x.ref(x.ctx.copyval(x.ctx.get(caret, nme)), True)
            x.run("position_apply_edits", p, x.ref(x.ctx.vec(edits)))
            ends.append(x.ctx.read(p))
        x.run(root, ref, r, vals)
        state_is(x, E, e, ref, edits, caret_at(x, E, e, *ends), "replacing a range")
        # and the caret can be used with the new formula
        now = x.ctx.read(ref)
        x.run("caret_from_minimal", x.ref(E.get(x, now, "tree")), x.ref(E.get(x, now, "caret")))
    return ob


def history_ob(op, k):
    """Undoing and redoing do the edits handed out by the history and restore its caret."""
    def ob(x):
        root = "editor_" + op
        opaque_matches(x, 0)
        opaque_edit_inverse(x)
        log = opaque_edit(x)
        ty = x.to(x.argtys(root)[0])
        e = x.sym("editor", ty)
        E = Editor(x, ty)
        h = E.get(x, e, "history")
        u, r = stacks(x, h.ty)
        stack = x.ctx.vec(x.ctx.field(h, u if op == "undo" else r))
        n = x.ctx.vlen(stack)
        if x.decide(x.ge(n, 1)):
            a = x.ctx.index(stack, n - 1)
            set_variant(x, a, "CaretEdit")
            ce = x.ctx.field(a, 0, variant=x.prog.variant_index(a.ty, "CaretEdit"))
            x.assume(x.eq(x.ctx.vlen(x.ctx.vec(x.ctx.get(ce, "edits"))), k))
        elif k:
            raise Dead()
        hr = x.ref(x.ctx.copyval(h), True)
        act = option(x, x.run("manager_" + op, hr))
        ref = x.ref(e, True)
        e = x.ctx.copyval(e)
        got = option(x, x.run(root, ref))
        if (got is None) != (act is None):
            x.fail("%s does something exactly if there is something to %s" % (op, op))
        now = x.ctx.read(ref)
        x.need(E.get(x, now, "history"), x.ctx.read(hr), op + ": the history")
        if act is None:
            state_is(x, E, e, ref, None, E.get(x, e, "caret"), op)
            return
        if not x.ctx.is_variant(act, "CaretEdit"):
            raise Unknown("kind of action")
        ce = x.ctx.vget(act, "CaretEdit", "0")
        x.need(E.get(x, now, "caret"), x.ctx.get(ce, "caret_after"), op + ": the caret")
        edits = x.ctx.get(ce, "edits")
        x.need(E.get(x, now, "tree"), after_edits(x, E.get(x, e, "tree"), edits), op + ": the formula")
        if k and not nothing_cached(x, E, now):
            x.fail(op + ": the parse result of the old formula is kept")
    return ob


def opaque_removal(x):
    """What deleting at the caret does is M02's business; here it is nothing, a move to an arbitrary place in the
    caret's row or the removal of an arbitrary stretch of it."""
    fids = callees(x, "do_remove_at_caret")
    if len(fids) != 1:
        raise Unknown("who deletes at the caret")
    done = {}

    def go(it, args, call):
        if "r" in done:
            return done["r"]
        r = it.ctx.read(it.deref(args[1]))
        how = x.ctx.choose(["nothing", "move", "edit"])
        if how == "nothing":
            done["r"] = mk_variant(x, call.rty, "None")
            return done["r"]
        f = x.ctx.get(r, "row_focus")
        n = row_len(x, focus_row(x, f))
        lo, hi = x.int("left"), x.int("right")
        x.assume(x.ge(hi, lo), x.ge(n, hi))
        tup = x.prog.fields(call.rty, x.prog.variant_index(call.rty, "Some"))[0][1]
        evt, pty = [t for _, t in x.prog.fields(tup)]
        oty = x.ctx.get(r, "start").ty
        path = focus_path(x, f)
        edits = ()
        if how == "edit":
            x.assume(x.lt(lo, hi))
            edits = (Elem(Cell(mk_edit(x, x.ctx.elem_ty(evt), "Delete", path, off_val(x, oty, lo),
                                       x.ctx.slice(row_vec(x, focus_row(x, f)), lo, hi - lo)))),)
        p = mk_struct(x, pty, row_indices=path, offset=off_val(x, oty, lo))
        done["r"] = mk_variant(x, call.rty, "Some", Agg(tup, 0, (VecV(edits, x.ctx.elem_ty(evt)), p)))
        return done["r"]
    x.it.opaque[fids[0]] = go


def opaque_move(x):
    """Where the caret moves is M01's business; here it stays or moves to an arbitrary place of the selection's row."""
    fids = callees(x, "move_caret_range")
    if len(fids) != 1:
        raise Unknown("who moves the caret")

    def go(it, args, call):
        if x.ctx.choose(["stays", "moves"]) == "stays":
            return mk_variant(x, call.rty, "None")
        v = args[1]
        if isinstance(v, Ref):
            v = it.ctx.read(it.deref(v))
        f = x.ctx.get(v, "row_focus")
        to = x.int("to")
        x.assume(x.ge(row_len(x, focus_row(x, f)), to))
        pty = x.prog.fields(call.rty, x.prog.variant_index(call.rty, "Some"))[0][1]
        return mk_variant(x, call.rty, "Some", mk_struct(x, pty, row_focus=f, offset=off_val(x, x.ctx.get(v, "start").ty, to)))
    x.it.opaque[fids[0]] = go


def opaque_edit(x):
    """Applying one edit is E01's and E02's business."""
    fids = callees(x, "tree_apply_edit")
    if len(fids) == 1:
        def go(it, args, call):
            t = it.deref(args[0])
            old = it.ctx.read(t)
            it.ctx.write(t, App("edited", old.ty, (old, it.ctx.read(it.deref(args[1])))))
            return models_unit(it)
        x.it.opaque[fids[0]] = go


def models_unit(it):
    from engine import models
    return models.unit(it)


def builder_ob(k, one_by_one):
    """The builder: nothing happens before finish; finish does, records and invalidates; discard leaves everything alone."""
    def ob(x):
        opaque_edit(x)
        ty = x.to(x.argtys("builder_new")[0])
        e = x.sym("editor", ty)
        E = Editor(x, ty)
        ref = x.ref(e, True)
        e = x.ctx.copyval(e)
        b = x.ref(x.run("builder_new", ref), True)
        ety = x.ctx.elem_ty(x.argtys("builder_add_edits")[1])
        es = [x.sym("edit%d" % i, ety) for i in range(k)]
        if one_by_one:
            for v in es:
                x.run("builder_add_edit", b, v)
        else:
            x.run("builder_add_edits", b, VecV([Elem(Cell(v)) for v in es], ety))
        state_is(x, E, e, ref, None, E.get(x, e, "caret"), "collecting edits")
        after = x.sym("after", x.argtys("builder_finish")[1])
        if x.ctx.choose(["finish", "discard"]) == "discard":
            x.run("builder_discard", x.ctx.read(b))
            state_is(x, E, e, ref, None, E.get(x, e, "caret"), "discarding edits")
            return
        got = x.run("builder_finish", x.ctx.read(b), after)
        edits = VecV([Elem(Cell(v)) for v in es], ety)
        x.need(got, mk_struct(x, got.ty, caret_before=E.get(x, e, "caret"), caret_after=after, edits=edits), "the action handed back")
        state_is(x, E, e, ref, edits, after, "finishing")
    return ob


# ---- with completions: the general rule -------------------------------------------------------------
def consistent(x, E, before, ref, what):
    """Every change of the formula since `before` is recorded, the parse result is dropped with it, and the caret is
    the one the last change left, inside the formula."""
    now = x.ctx.read(ref)
    h0, h1 = E.get(x, before, "history"), E.get(x, now, "history")
    u, r = stacks(x, h0.ty)
    u0, u1 = x.ctx.vec(x.ctx.field(h0, u)), x.ctx.vec(x.ctx.field(h1, u))
    n0 = x.ctx.vlen(u0)
    k = x.ctx.norm(x.ctx.vlen(u1) - n0).const()
    if k is None:
        raise Unknown("number of recorded actions")
    if k < 0:
        x.fail(what + ": recorded actions are lost")
    x.need(x.ctx.slice(u1, ZERO, n0), u0, what + ": the actions recorded before")
    tree = E.get(x, before, "tree")
    last = None
    for i in range(k):
        a = x.ctx.index(u1, n0 + i)
        if not x.ctx.is_variant(a, "CaretEdit"):
            raise Unknown("kind of action")
        ce = x.ctx.vget(a, "CaretEdit", "0")
        last = ce
        tree = after_edits(x, tree, x.ctx.get(ce, "edits"))
    x.need(E.get(x, now, "tree"), tree, what + ": the formula is the one before with the recorded actions done")
    if k == 0:
        x.need(h1, h0, what + ": the history")
        if not nothing_cached(x, E, now):
            x.need(E.get(x, now, "parsed"), E.get(x, before, "parsed"), what + ": the cached parse result")
    else:
        if not x.decide(x.eq(x.ctx.vlen(x.ctx.vec(x.ctx.field(h1, r))), 0)):
            x.fail(what + ": actions that no longer fit can be redone")
        if not nothing_cached(x, E, now):
            x.fail(what + ": the parse result of the old formula is kept")
        x.need(E.get(x, now, "caret"), x.ctx.get(last, "caret_after"), what + ": the caret")
    x.run("caret_from_minimal", x.ref(E.get(x, now, "tree")), x.ref(E.get(x, now, "caret")))
    return k


def completion_ob(op, places, arg=None):
    def ob(x):
        root = "editor_" + op
        E, e, tree, rows = setup_editor(x, root, places, 1)
        tys = x.argtys(root)
        ref = x.ref(e, True)
        e = x.ctx.copyval(e)
        args = []
        if op in ("move_caret", "select_with_caret"):
            opaque_move(x)
            args = [mk_variant(x, tys[1], arg), mk_variant(x, tys[2], "Char")]
        elif op == "remove_at_caret":
            opaque_removal(x)
            args = [mk_variant(x, tys[1], arg), mk_variant(x, tys[2], "Char")]
        elif op == "insert_at_caret":
            args = [VecV([Elem(Cell(x.sym("s", x.ctx.elem_ty(tys[1]))))], x.ctx.elem_ty(tys[1]))]
        elif op == "finish_autocomplete":
            args = [True]
        elif op == "move_in_autocomplete":
            args = [mk_variant(x, tys[1], arg)]
        elif op in ("start_selection", "extend_selection"):
            p = x.sym("place", tys[1])
            path = x.ctx.get(p, "row_indices")
            x.assume(x.eq(path_len(x, path), arg))
            row = walk(x, x.ctx.get(tree, "root"), path, arg)[-1]
            x.assume(x.ge(row_len(x, row), off(x, x.ctx.get(p, "offset"))))
            args = [p] + ([x.sym("mode", tys[2])] if len(tys) > 2 else [])
        x.run(root, ref, *args)
        consistent(x, E, e, ref, op.replace("_", " ") + " with completions")
    return ob


def u03(tier):
    T = tier == "thorough"
    out = []
    for k in range(4 if T else 3):
        out.append(Ob("builder, %d edits" % k, builder_ob(k, False), unroll=k + 2))
        out.append(Ob("builder, %d edits added one by one" % k, builder_ob(k, True), unroll=k + 2))
    for op in ("undo", "redo"):
        for k in range(4 if T else 3):
            out.append(Ob("%s of an action with %d edits" % (op, k), history_ob(op, k), unroll=k + 2))
    at = [0, 1] + ([2] if T else [])
    sel = [(0, 0), (0, 1), (1, 0)] + ([(1, 1)] if T else [])
    for c in at + sel:
        t = ", caret %s" % ("%d steps down" % c if isinstance(c, int) else "selecting %d to %d steps down" % c)
        for d in ("Left", "Right", "Up", "Down"):
            out.append(Ob("move_caret %s%s" % (d, t), op_ob("move_caret", c, d), unroll=5))
            if c in (0, 1):
                out.append(Ob("select_with_caret %s%s" % (d, t), op_ob("select_with_caret", c, d), unroll=5))
        for m in ("Left", "Right", "Range"):
            if not isinstance(c, int) or m != "Range":
                out.append(Ob("remove_at_caret %s%s" % (m, t), op_ob("remove_at_caret", c, m), unroll=6))
        out.append(Ob("insert_at_caret%s" % t, op_ob("insert_at_caret", c, 1), unroll=5))
        out.append(Ob("paste%s" % t, op_ob("paste", c), unroll=5))
    for op, arg in (("select_all", None), ("finish_selection", None), ("start_selection", 0), ("start_selection", 1), ("extend_selection", 0),
                    ("finish_autocomplete", False), ("finish_autocomplete", True), ("open_autocomplete", None), ("get_syntax_tree", None)):
        out.append(Ob("%s%s" % (op, "" if arg is None else " %s" % arg), op_ob(op, 0, arg), unroll=5))
    for c in (0, (0, 0), 1, (1, 0)):
        for d in (0, 1):
            for k in (0, 1):
                out.append(Ob("splice_at_range %d steps down, %s, caret %s" % (d, "something" if k else "nothing", c), splice_ob(c, d, k), unroll=5))
    for op, args in (("move_caret", ("Left", "Right")), ("select_with_caret", ("Left", "Right")), ("remove_at_caret", ("Left", "Right")), ("insert_at_caret", (None,)),
                     ("finish_autocomplete", (None,)), ("move_in_autocomplete", ("Up", "Down")), ("start_selection", (0, 1)), ("extend_selection", (0, 1))):
        for arg in args:
            for c in (0, 1):
                if not T and ((op == "extend_selection" and (arg or c)) or (op == "select_with_caret" and c) or arg == "Right"):
                    continue
                out.append(Ob("%s%s with completions, caret %d steps down" % (op, "" if arg is None else " %s" % arg, c), completion_ob(op, c, arg), unroll=5, budget=600 if T else 100))
    out.sort(key=lambda o: "with completions" not in o.name)
    return out


# ---- M03: what is selected -------------------------------------------------------------------------
def selection_in(x, root, da, db):
    """An arbitrary editor whose caret has its ends da and db steps down; what lies between the ends, by definition:
    ("row", path, row, start, end) or ("cells", path, index, table, (left, top, right, bottom))."""
    opaque_matches(x, 0)
    ty = x.to(x.argtys(root)[0])
    e = x.sym("editor", ty)
    E = Editor(x, ty)
    tree, caret = E.get(x, e, "tree"), E.get(x, e, "caret")
    ends = []
    for p, depth in zip((x.ctx.get(caret, "start_position"), x.ctx.get(caret, "end_position")), (da, db)):
        path = x.ctx.get(p, "row_indices")
        x.assume(x.eq(path_len(x, path), depth))
        rs = walk(x, x.ctx.get(tree, "root"), path, depth)
        o = off(x, x.ctx.get(p, "offset"))
        x.assume(x.ge(row_len(x, rs[-1]), o))
        ends.append((path, rs, o))
    (pa, ra, oa), (pb, rb, ob) = ends
    fw = document_order(x, pa, oa, pb, ob) <= 0
    la, lb = only_vec(x, pa), only_vec(x, pb)
    L, how, ea, eb = x.ctx.common_prefix(la, lb, la.ety)
    k = x.ctx.norm(L).const()
    if k is None:
        raise Unknown("length of the common path")
    path, row = with_vec(x, pa, x.ctx.slice(la, ZERO, x.p(k))), ra[k]
    if how == "diff":
        i = x.ctx.field(ea, 0)
        if x.decide(x.eq(i, x.ctx.field(eb, 0))):
            node = x.ctx.index(row_vec(x, row), i)
            vi = x.prog.variant_index(node.ty, "Container")
            parts = {("kind" if x.prog.is_enum(t) else "grid"): f for f, (n, t) in enumerate(x.prog.fields(node.ty, vi))}
            kind = x.ctx.field(node, parts["kind"], variant=vi)
            if x.prog.t(kind.ty)["variants"][x.ctx.variant(kind)]["name"] in RESIZABLE:
                g = x.ctx.field(node, parts["grid"], variant=vi)
                cells, w = grid_parts(x, g)
                (ay, ax), (by, bx) = (x.ctx.divmod(x.ctx.field(v, 1), w) for v in (ea, eb))
                l, r = (ax, bx) if x.decide(x.ge(bx, ax)) else (bx, ax)
                t, b = (ay, by) if x.decide(x.ge(by, ay)) else (by, ay)
                return E, e, ("cells", path, i, w, (l, t, r, b))
    start = oa if k == da else x.ctx.field(x.ctx.index(la, x.p(k)), 0) + (0 if fw else 1)
    end = ob if k == db else x.ctx.field(x.ctx.index(lb, x.p(k)), 0) + (1 if fw else 0)
    return E, e, ("row", path, row, x.p(start), x.p(end))


def reported_ob(da, db):
    def ob(x):
        root = "editor_get_caret"
        E, e, want = selection_in(x, root, da, db)
        got = x.ctx.vec(x.run(root, x.ref(e)))
        x.check(x.eq(x.ctx.vlen(got), 1), "one caret is reported")
        s = x.ctx.index(got, ZERO)
        name = x.prog.t(s.ty)["variants"][x.ctx.variant(s)]["name"]
        if name.startswith("Row") != (want[0] == "row"):
            x.fail("cells of a table are reported as selected exactly if the caret's ends lie in different cells of it")
        v = x.ctx.field(s, 0, variant=x.ctx.variant(s))
        x.need(x.ctx.get(v, "row_indices"), want[1], "the path of the reported selection")
        if want[0] == "row":
            x.need(off(x, x.ctx.get(v, "start")), want[3], "where the reported selection starts")
            x.need(off(x, x.ctx.get(v, "end")), want[4], "where the reported selection ends")
            return
        x.need(x.ctx.get(v, "index"), want[2], "the table the reported cells are in")
        r = x.ctx.get(v, "range")
        first, last = x.run("corner_first", x.ref(r)), option(x, x.run("corner_last", x.ref(r)))
        if last is None:
            x.fail("a selection of cells is not empty")
        for c, i, j, k, what in ((first, 0, 0, 1, "first"), (last, 2, 2, 3, "last")):
            x.need(x.ctx.field(c, 0), want[4][j], "the %s selected column" % what)
            x.need(x.ctx.field(c, 1), want[4][k], "the %s selected row" % what)
    return ob


def copied_ob(da, db):
    def ob(x):
        root = "editor_copy"
        E, e, want = selection_in(x, root, da, db)
        if want[0] == "cells":          # copying cells is not implemented
            raise Dead()
        fids = callees(x, "serialize")
        if len(fids) != 1:
            raise Unknown("who writes copied elements down")
        seen = []

        def go(it, args, call):
            seen.append((seq_of(x, args[0]), args[1]))
            return mk_variant(x, call.rty, "Ok", x.it.string("written"))
        x.it.opaque[fids[0]] = go
        kind = x.sym("kind", x.argtys(root)[1])
        got = x.run(root, x.ref(e), kind)
        if len(seen) != 1:
            x.fail("the selected elements are written down once")
        lo, hi = (want[3], want[4]) if x.decide(x.ge(want[4], want[3])) else (want[4], want[3])
        x.need(seen[0][0], x.ctx.slice(row_vec(x, want[2]), lo, x.ctx.norm(hi - lo)), "the copied elements")
        x.need(seen[0][1], kind, "the kind of text asked for")
        x.need(got, mk_variant(x, got.ty, "Ok", x.it.string("written")), "what is handed out")
    return ob


def m03(tier):
    deep = 3 if tier == "thorough" else 2
    ds = [(a, b) for a in range(deep + 1) for b in range(deep + 1)]
    return [Ob("the reported selection, ends %d and %d steps down" % d, reported_ob(*d), unroll=4) for d in ds] + \
           [Ob("copying, ends %d and %d steps down" % d, copied_ob(*d), unroll=4) for d in ds]
