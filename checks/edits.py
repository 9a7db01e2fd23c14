"""E01-E04: applying, inverting and building edits."""
from .base import *


def inputs(x, name):
    """Symbolic (value, reference) for every argument of an entry point."""
    return x.argtys(name)


def edit_input(x, root, argi, variant):
    """A symbolic edit of the given kind; (edit value, payload)."""
    ety = x.to(x.argtys(root)[argi])
    e = x.sym("edit", ety)
    set_variant(x, e, variant)
    vi = x.prog.variant_index(ety, variant)
    return e, x.ctx.field(e, 0, variant=vi)


def tree_input(x, root, argi):
    return x.sym("tree", x.to(x.argtys(root)[argi]))


def spliced(x, vec, at, remove, insert):
    """vec with `remove` elements at `at` replaced by those of `insert` (None: nothing)."""
    n = x.ctx.vlen(vec)
    pre = x.ctx.slice(vec, ZERO, at).segs
    post = x.ctx.slice(vec, at + remove, n - at - remove).segs
    mid = insert.segs if insert is not None else ()
    return VecV(pre + mid + post, vec.ety)


def row_edit_applied(kind, depth):
    """E01: the whole tree after apply_edit is the tree in which only the addressed stretch changed."""
    def ob(x):
        t = tree_input(x, "tree_apply_edit", 0)
        e, re = edit_input(x, "tree_apply_edit", 1, "Row")
        set_variant(x, x.ctx.get(re, "edit_type"), kind)
        pos = x.ctx.get(re, "position")
        path = x.ctx.get(pos, "row_indices")
        x.assume(x.eq(path_len(x, path), depth))
        rows = walk(x, x.ctx.get(t, "root"), path, depth)
        o = off(x, x.ctx.get(pos, "offset"))
        vals = x.ctx.vec(x.ctx.get(re, "values"))
        n, k = row_len(x, rows[-1]), x.ctx.vlen(vals)
        x.assume(x.ge(n, o if kind == "Insert" else o + k))
        want = Ref(Cell(t), (), None, True)
        place = place_row(x, field_ref(x, want, "root"), path, depth)
        cur = row_vec(x, x.ctx.read(place))
        new = spliced(x, cur, o, ZERO, vals) if kind == "Insert" else spliced(x, cur, o, k, None)
        x.ctx.write(field_ref(x, place, "values"), new)
        got = x.ref(t, True)
        x.run("tree_apply_edit", got, x.ref(e))
        x.need(x.ctx.read(got), x.ctx.read(want), "the tree after %s" % ("an insertion" if kind == "Insert" else "a deletion"))
    return ob


def grid_edit_applied(kind, direction, depth, lines=None):
    """E02: cells and size of the edited table; everything else in the tree untouched."""
    def ob(x):
        t = tree_input(x, "tree_apply_edit", 0)
        e, ge = edit_input(x, "tree_apply_edit", 1, "Grid")
        set_variant(x, x.ctx.get(ge, "edit_type"), kind)
        set_variant(x, x.ctx.get(ge, "direction"), direction)
        ei = x.ctx.get(ge, "element_indices")
        path = x.ctx.get(ei, "row_indices")
        idx = x.ctx.get(ei, "index")
        x.assume(x.eq(path_len(x, path), depth))
        rows = walk(x, x.ctx.get(t, "root"), path, depth)
        rv = row_vec(x, rows[-1])
        x.assume(x.lt(idx, x.ctx.vlen(rv)))
        node = x.ctx.index(rv, idx)
        set_variant(x, node, "Container")
        vi = x.prog.variant_index(node.ty, "Container")
        for i, (n, ty) in enumerate(x.prog.fields(node.ty, vi)):
            if x.prog.is_enum(ty):
                set_variant(x, x.ctx.field(node, i, variant=vi), "Table")
        grid, gi, _ = node_grid(x, node)
        cells, w = grid_parts(x, grid)
        h = grid_rows(x, grid)
        vg = x.ctx.get(ge, "values")
        vcells, vw = grid_parts(x, vg)
        vh = grid_rows(x, vg)
        at = as_int(x, x.ctx.get(ge, "row_or_column"))
        if direction == "Row":
            x.assume(x.eq(vw, w))
            x.assume(x.ge(h, at if kind == "Insert" else at + vh))
            if kind == "Insert":
                new = spliced(x, cells, at * w, ZERO, vcells)
            else:
                new = spliced(x, cells, at * w, vh * w, None)
            neww = w
        else:
            x.assume(x.eq(vh, h))
            x.assume(x.ge(w, at if kind == "Insert" else at + vw))
            if lines is not None:
                x.assume(x.eq(h, lines))
            if kind == "Delete":
                x.assume(x.ge(w - vw, 1))
            segs = []
            for y in range(lines):
                segs += x.ctx.slice(cells, x.p(y) * w, at).segs
                if kind == "Insert":
                    segs += x.ctx.slice(vcells, x.p(y) * vw, vw).segs
                    segs += x.ctx.slice(cells, x.p(y) * w + at, w - at).segs
                else:
                    segs += x.ctx.slice(cells, x.p(y) * w + at + vw, w - at - vw).segs
            new = VecV(segs, cells.ety)
            neww = w + vw if kind == "Insert" else w - vw
        want = Ref(Cell(t), (), None, True)
        place = place_row(x, field_ref(x, want, "root"), path, depth)
        g = grid_ref(x, place_elem(x, place, idx))
        c, wi = TreeHooks.grid_shape(None, x.ctx, grid.ty)
        x.ctx.write(Ref(g.cell, g.path + ((c, None),), None, True), new)
        x.ctx.write(Ref(g.cell, g.path + ((wi, None),), None, True), neww)
        got = x.ref(t, True)
        x.run("tree_apply_edit", got, x.ref(e))
        x.need(x.ctx.read(got), x.ctx.read(want), "the tree after %s of %ss" % ("insertion" if kind == "Insert" else "deletion", direction.lower()))
    return ob


def e01(tier):
    deep = 5 if tier == "thorough" else 3
    return [Ob("row edit %s, path of %d steps" % (k, d), row_edit_applied(k, d)) for k in ("Insert", "Delete") for d in range(deep + 1)]


def e02(tier):
    deep, lines = (3, 6) if tier == "thorough" else (2, 3)
    out = [Ob("%s rows, path of %d steps" % (k, d), grid_edit_applied(k, "Row", d)) for k in ("Insert", "Delete") for d in range(deep + 1)]
    out += [Ob("%s columns of %d rows, path of %d steps" % (k, l, d), grid_edit_applied(k, "Column", d, l), unroll=max(3, l))
            for k in ("Insert", "Delete") for d in range(2) for l in range(lines + 1)]
    return out


# ---- E03 ------------------------------------------------------------------------------------------
FLIP = {"Insert": "Delete", "Delete": "Insert"}


def flipped(x, e, kind):
    """The same edit with the opposite type."""
    ty = x.ctx.get(e, "edit_type").ty
    return mk_like(x, e, edit_type=mk_variant(x, ty, FLIP[kind]))


def inverse_ob(root, kind, wrap=None):
    def ob(x):
        e = x.sym("edit", x.to(x.argtys(root)[0]))
        if wrap is None:
            if x.prog.is_enum(e.ty):
                set_variant(x, e, kind)
                want = mk_variant(x, e.ty, FLIP[kind])
            else:
                set_variant(x, x.ctx.get(e, "edit_type"), kind)
                want = flipped(x, e, kind)
        else:
            set_variant(x, e, wrap)
            inner = x.ctx.field(e, 0, variant=x.prog.variant_index(e.ty, wrap))
            set_variant(x, x.ctx.get(inner, "edit_type"), kind)
            want = mk_variant(x, e.ty, wrap, flipped(x, inner, kind))
        got = x.run(root, x.ref(e))
        x.need(got, want, "the inverse")
        back = x.run(root, x.ref(got))
        x.need(back, e, "the inverse of the inverse")
    return ob


def undo_row_ob(kind, depth):
    """apply; apply inverse == nothing (a deletion carries what it deletes)."""
    def ob(x):
        t = tree_input(x, "tree_apply_edit", 0)
        e, re = edit_input(x, "tree_apply_edit", 1, "Row")
        set_variant(x, x.ctx.get(re, "edit_type"), kind)
        path = pget(x, re, "position", "row_indices")
        x.assume(x.eq(path_len(x, path), depth))
        rows = walk(x, x.ctx.get(t, "root"), path, depth)
        o = off(x, pget(x, re, "position", "offset"))
        n = row_len(x, rows[-1])
        if kind == "Insert":
            x.assume(x.ge(n, o))
        else:
            k = x.int("k")
            x.assume(x.ge(n, o + k))
            vals = x.ctx.slice(row_vec(x, rows[-1]), o, k)
            e = mk_variant(x, e.ty, "Row", mk_like(x, re, values=vals))
        got = x.ref(t, True)
        x.run("tree_apply_edit", got, x.ref(e))
        inv = x.run("basic_edit_inverse", x.ref(e))
        x.run("tree_apply_edit", got, x.ref(inv))
        x.need(x.ctx.read(got), t, "the tree after %s and its inverse" % ("an insertion" if kind == "Insert" else "a deletion"))
    return ob


def undo_grid_ob(kind, direction, lines):
    def ob(x):
        t = tree_input(x, "tree_apply_edit", 0)
        e, ge = edit_input(x, "tree_apply_edit", 1, "Grid")
        set_variant(x, x.ctx.get(ge, "edit_type"), kind)
        set_variant(x, x.ctx.get(ge, "direction"), direction)
        ei = x.ctx.get(ge, "element_indices")
        path, idx = x.ctx.get(ei, "row_indices"), x.ctx.get(ei, "index")
        x.assume(x.eq(path_len(x, path), 0))
        rv = row_vec(x, x.ctx.get(t, "root"))
        x.assume(x.lt(idx, x.ctx.vlen(rv)))
        node = x.ctx.index(rv, idx)
        set_variant(x, node, "Container")
        vi = x.prog.variant_index(node.ty, "Container")
        for i, (n, ty) in enumerate(x.prog.fields(node.ty, vi)):
            if x.prog.is_enum(ty):
                set_variant(x, x.ctx.field(node, i, variant=vi), "Table")
        grid, gi, _ = node_grid(x, node)
        cells, w = grid_parts(x, grid)
        h = grid_rows(x, grid)
        vg = x.ctx.get(ge, "values")
        vcells, vw = grid_parts(x, vg)
        vh = grid_rows(x, vg)
        at = as_int(x, x.ctx.get(ge, "row_or_column"))
        if direction == "Row":
            x.assume(x.eq(vw, w), x.ge(h, at if kind == "Insert" else at + vh))
            part = x.ctx.slice(cells, at * w, vh * w) if kind == "Delete" else None
        else:
            x.assume(x.eq(vh, h), x.eq(h, lines), x.ge(w, at if kind == "Insert" else at + vw))
            if kind == "Delete":
                x.assume(x.ge(w - vw, 1))
                segs = []
                for y in range(lines):
                    segs += x.ctx.slice(cells, x.p(y) * w + at, vw).segs
                part = VecV(segs, cells.ety)
        if kind == "Delete":
            c, wi = TreeHooks.grid_shape(None, x.ctx, vg.ty)
            gv = Agg(vg.ty, 0, [part if i == c else vw for i in range(2)])
            e = mk_variant(x, e.ty, "Grid", mk_like(x, ge, values=gv))
        got = x.ref(t, True)
        x.run("tree_apply_edit", got, x.ref(e))
        inv = x.run("basic_edit_inverse", x.ref(e))
        x.run("tree_apply_edit", got, x.ref(inv))
        x.need(x.ctx.read(got), t, "the tree after a grid edit and its inverse")
    return ob


def list_ob(root, one, k, kinds):
    """apply_edits(list) does what applying the edits one after another does."""
    def ob(x):
        v = x.sym("value", x.to(x.argtys(root)[0]))
        es = x.sym("edits", x.to(x.argtys(root)[1]))
        ev = x.ctx.vec(es)
        x.assume(x.eq(x.ctx.vlen(ev), k))
        items = [x.ctx.index(ev, x.p(i)) for i in range(k)]
        for e, kind in zip(items, kinds):
            set_variant(x, e, "Row")
            re = x.ctx.field(e, 0, variant=x.prog.variant_index(e.ty, "Row"))
            set_variant(x, x.ctx.get(re, "edit_type"), kind)
            x.assume(x.eq(path_len(x, pget(x, re, "position", "row_indices")), 0))
            if root == "range_apply_edits":
                x.assume(x.ge(off(x, x.ctx.get(v, "end")), off(x, x.ctx.get(v, "start"))))
        want = x.ref(v, True)
        ended = None
        for e in items:
            try:
                x.run(one, want, x.ref(e))
            except Panic as p:
                ended = p
                break
        got = x.ref(v, True)
        try:
            x.run(root, got, x.ref(es))
        except Panic:
            if ended is None:
                raise
            return
        if ended is not None:
            x.fail("applying the list does not stop at the edit that cannot be applied")
        x.need(x.ctx.read(got), x.ctx.read(want), "the result of applying %d edits" % k)
    return ob


def e03(tier):
    out = []
    for k in FLIP:
        out.append(Ob("inverse of edit type %s" % k, inverse_ob("edit_type_inverse", k)))
        out.append(Ob("inverse of a row edit (%s)" % k, inverse_ob("row_edit_inverse", k)))
        out.append(Ob("inverse of a grid edit (%s)" % k, inverse_ob("grid_edit_inverse", k)))
        out.append(Ob("inverse of a wrapped row edit (%s)" % k, inverse_ob("basic_edit_inverse", k, "Row")))
        out.append(Ob("inverse of a wrapped grid edit (%s)" % k, inverse_ob("basic_edit_inverse", k, "Grid")))
        for d in range(4 if tier == "thorough" else 2):
            out.append(Ob("undoing a row %s, path of %d steps" % (k, d), undo_row_ob(k, d)))
        out.append(Ob("undoing a %s of rows" % k, undo_grid_ob(k, "Row", None)))
        for l in range(5 if tier == "thorough" else 3):
            out.append(Ob("undoing a %s of columns of %d rows" % (k, l), undo_grid_ob(k, "Column", l)))
    import itertools
    for n in range(4 if tier == "thorough" else 3):
        for ks in itertools.product(("Insert", "Delete"), repeat=n):
            out.append(Ob("list of edits %s on a tree" % (list(ks),), list_ob("tree_apply_edits", "tree_apply_edit", n, ks), unroll=n + 2))
            out.append(Ob("list of edits %s on a range" % (list(ks),), list_ob("range_apply_edits", "range_apply_edit", n, ks), unroll=n + 2))
    return out
