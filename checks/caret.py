"""M01, M02: moving the caret and deleting at it."""
from .base import *
from .selection import focus_row, focus_path, range_input, shape, mk_edit, off_val
from .walking import rget, row_focus_in, node_focus_in, cell_of

NEAR = {"Left": "end", "Right": "start", "Up": "end", "Down": "start"}


# ---- places ---------------------------------------------------------------------------------------
def child_row(x, node_focus, j):
    """Focus of an existing child row."""
    r = x.run("focus_node_child_at", node_focus, x.p(j))
    if not x.ctx.is_variant(r, "Ok"):
        x.fail("stepping into an existing child row fails")
    return x.ctx.vget(r, "Ok", "0")


def element(x, f, i):
    n = option(x, x.run("focus_row_child_at", f, x.p(i)))
    if n is None:
        x.fail("stepping to an existing element fails")
    return n


def row_at_depth(x, depth, start="any"):
    """A focus of a row `depth` steps below an arbitrary row (start any) or below the root of the tree.
    Returns the chain [(focus, element focus, element index, cell index)] and the focus of the last row."""
    if start == "any":
        f = row_focus_in(x, "base")
    else:
        t = x.sym("tree", x.to(x.argtys("tree_root_focus")[0]))
        f = x.run("tree_root_focus", x.ref(t))
    chain = []
    for k in range(depth):
        i, j = x.int("i%d" % k), x.int("j%d" % k)
        v = row_vec(x, focus_row(x, f))
        x.assume(x.lt(i, x.ctx.vlen(v)))
        node = x.ctx.index(v, i)
        set_variant(x, node, "Container")
        grid, _, _ = node_grid(x, node)
        x.assume(x.lt(j, x.ctx.vlen(grid_parts(x, grid)[0])))
        nf = element(x, f, i)
        chain.append((f, nf, i, j))
        f = child_row(x, nf, j)
    return chain, f


def place_is(x, got, want, what):
    """want = (row focus, offset) or None; got = Option<InputRowPosition>."""
    got = option(x, got)
    if (got is None) != (want is None):
        x.fail("%s: %s" % (what, "stays although there is a place to go" if got is None else "moves although there is no place to go"))
    if want is None:
        return
    f, o = want
    g = x.ctx.get(got, "row_focus")
    x.need(rget(x, "focus_row_indices", g), focus_path(x, f), what + ": the row arrived at")
    x.need(rget(x, "focus_row_row", g), focus_row(x, f), what + ": the content of the row arrived at")
    x.need(off(x, x.ctx.get(got, "offset")), x.p(o), what + ": the offset arrived at")


def near_end(x, f, direction):
    return (f, row_len(x, focus_row(x, f)) if NEAR[direction] == "end" else ZERO)


def node_value(x, nf):
    return rget(x, "focus_node_node", nf)


def container_kind(x, node):
    """Name of the container's kind, its cells and width."""
    vi = x.prog.variant_index(node.ty, "Container")
    kind = None
    for i, (n, t) in enumerate(x.prog.fields(node.ty, vi)):
        if x.prog.is_enum(t):
            k = x.ctx.field(node, i, variant=vi)
            kind = x.prog.t(t)["variants"][x.ctx.variant(k)]["name"]
    grid, _, _ = node_grid(x, node)
    cells, w = grid_parts(x, grid)
    return kind, cells, w


def is_container(x, node):
    return x.prog.t(node.ty)["variants"][x.ctx.variant(node)]["name"] == "Container"


def moved_horizontally(x, chain, f, o, direction):
    """Where a step to the left or right leads, or None."""
    v = row_vec(x, focus_row(x, f))
    n = x.ctx.vlen(v)
    left = direction == "Left"
    if not x.decide(x.eq(o, 0) if left else x.ge(o, n)):
        i = o - 1 if left else o
        node = x.ctx.index(v, i)
        if not is_container(x, node):
            return f, (o - 1 if left else o + 1)
        cells = container_kind(x, node)[1]
        if x.decide(x.eq(x.ctx.vlen(cells), 0)):
            return f, (o - 1 if left else o + 1)
        return near_end(x, child_row(x, element(x, f, i), x.ctx.vlen(cells) - 1 if left else ZERO), direction)
    if not chain:
        return None
    pf, nf, i, j = chain[-1]
    cells = container_kind(x, node_value(x, nf))[1]
    if left and x.decide(x.ge(j, 1)):
        return near_end(x, child_row(x, nf, j - 1), direction)
    if not left and x.decide(x.lt(j + 1, x.ctx.vlen(cells))):
        return near_end(x, child_row(x, nf, j + 1), direction)
    return pf, (i if left else i + 1)


def moved_vertically(x, chain, direction):
    for pf, nf, i, j in reversed(chain):
        kind, cells, w = container_kind(x, node_value(x, nf))
        if (kind, direction) in (("Sub", "Down"), ("Sup", "Up")):
            return pf, i
        if direction == "Up":
            if x.decide(x.ge(j, w)):
                return near_end(x, child_row(x, nf, j - w), direction)
        elif x.decide(x.lt(j + w, x.ctx.vlen(cells))):
            return near_end(x, child_row(x, nf, j + w), direction)
    return None


def moved(x, chain, f, o, direction):
    if direction in ("Left", "Right"):
        return moved_horizontally(x, chain, f, o, direction)
    return moved_vertically(x, chain, direction)


def edge(x, o, n, direction, want):
    """Assume the offset is (not) at the end of the row the direction points to."""
    c = x.eq(o, 0) if direction in ("Left", "Up") else x.eq(o, n)
    if x.decide(c) != want:
        raise Dead()


def move_ob(direction, depth, start, inside):
    """inside: the caret has an element on the side it moves to (any row at all); otherwise rows at depth `depth`."""
    def ob(x):
        root = "move_caret_range"
        tys = x.argtys(root)
        chain, f = row_at_depth(x, depth, start)
        n = row_len(x, focus_row(x, f))
        s, e = x.int("start"), x.int("end")
        x.assume(x.ge(n, s), x.ge(n, e))
        lo, hi = shape(x, True, s, e)
        o = lo if direction in ("Left", "Up") else hi
        if inside is not None:
            edge(x, o, n, direction, not inside)
        oty = dict(x.prog.fields(tys[1]))["start"]
        r = mk_struct(x, tys[1], row_focus=f, start=off_val(x, oty, s), end=off_val(x, oty, e))
        d = mk_variant(x, tys[2], direction)
        m = mk_variant(x, tys[3], "Char")
        got = x.run(root, x.ref(x.sym("settings", x.to(tys[0]))), r, d, m)
        want = moved(x, chain, f, o, direction)
        if want is None and not x.decide(x.eq(s, e)):
            want = (f, o)
        place_is(x, got, want, "moving " + direction.lower())
    return ob


def set_ob(direction, kind, depth):
    """move_caret: the whole caret collapses to the new place, or stays untouched when there is none."""
    def ob(x):
        root = "move_caret"
        tys = x.argtys(root)
        t = x.sym("tree", x.to(x.argtys("caret_from_minimal")[0]))
        mty = x.to(x.argtys("caret_from_minimal")[1])
        pty = dict(x.prog.fields(mty))["start_position"]
        a = x.sym("stored", pty)
        path = x.ctx.get(a, "row_indices")
        x.assume(x.eq(path_len(x, path), depth))
        row = walk(x, x.ctx.get(t, "root"), path, depth)[-1]
        x.assume(x.ge(row_len(x, row), off(x, x.ctx.get(a, "offset"))))
        c = x.run("caret_from_minimal", x.ref(t), x.ref(mk_struct(x, mty, start_position=a, end_position=a)))
        cr = x.ref(c, True)
        settings = x.ref(x.sym("settings", x.to(tys[0])))
        d, m = mk_variant(x, tys[2], direction), mk_variant(x, tys[3], "Char")
        f = x.run("focus_walk_down", x.run("tree_root_focus", x.ref(t)), x.ref(path))
        rty = x.argtys("move_caret_range")[1]
        o = x.ctx.get(a, "offset")
        rng = mk_struct(x, rty, row_focus=f, start=o, end=o)
        want = option(x, x.run("move_caret_range", settings, rng, d, m))
        x.run(root, settings, cr, d, m)
        got = x.run("caret_to_minimal", cr)
        w = a if want is None else x.run("position_to_minimal", x.ref(want))
        x.need(x.ctx.get(got, "start_position"), w, "the start of the moved caret")
        x.need(x.ctx.get(got, "end_position"), w, "the end of the moved caret")
    return ob


def m01(tier):
    out = []
    deep = 5 if tier == "thorough" else 3
    for d in ("Left", "Right"):
        out.append(Ob("%s, element on that side" % d, move_ob(d, 0, "any", True), unroll=5))
        out.append(Ob("%s, at the edge of a child row" % d, move_ob(d, 1, "any", False), unroll=5))
        out.append(Ob("%s, at the edge of the formula" % d, move_ob(d, 0, "root", False), unroll=5))
    for d in ("Up", "Down"):
        for k in range(deep + 1):
            out.append(Ob("%s, %d steps below the root" % (d, k), move_ob(d, k, "root", None), unroll=5))
    for d in ("Left", "Right", "Up", "Down"):
        for k in range(2 if tier == "quick" else 3):
            out.append(Ob("moving a caret %s, %d steps below the root" % (d, k), set_ob(d, None, k), unroll=5))
    return out


# ---- M02 ------------------------------------------------------------------------------------------
CELLS = {"Sub": 1, "Sup": 1, "Fraction": 2, "Root": 2}


def fixed_cells(x, node, most, width=3):
    """Kind and cells of a container whose number of cells is fixed by its kind (tables: chosen, at most
    `most` cells in rows of at most `width`)."""
    kind, cells, w = container_kind(x, node)
    n = x.ctx.vlen(cells)
    if kind in CELLS:
        x.assume(x.eq(w, 1), x.eq(n, CELLS[kind]))
        return kind, cells, CELLS[kind]
    sizes = [(c, k) for c in range(1, width + 1) for k in range(0, most + 1) if k % c == 0]
    c, k = x.ctx.choose(sizes)
    x.assume(x.eq(w, c), x.eq(n, k))
    return kind, cells, k


def contents(x, cells, k):
    segs = ()
    for i in range(k):
        segs += row_vec(x, x.ctx.index(cells, x.p(i))).segs
    return segs


def edits_list(x, edits, wants, what):
    """The edits that change anything are exactly `wants`."""
    v = x.ctx.vec(edits)
    n = x.ctx.norm(x.ctx.vlen(v)).const()
    if n is None:
        raise Unknown("number of edits")
    got = []
    for i in range(n):
        e = x.ctx.index(v, x.p(i))
        if x.ctx.is_variant(e, "Row"):
            vals = x.ctx.get(x.ctx.vget(e, "Row", "0"), "values")
            if x.decide(x.eq(x.ctx.vlen(x.ctx.vec(vals)), 0)):
                continue
        got.append(e)
    if len(got) != len(wants):
        x.fail("%s: %d edits that change the formula instead of %d" % (what, len(got), len(wants)))
    for g, w in zip(got, wants):
        x.need(g, w, what)


def removal_is(x, got, f, wants, o, oty, what):
    """got = Option<(edits, position)>"""
    got = option(x, got)
    if got is None:
        x.fail(what + ": nothing happens")
    edits, pos = x.ctx.field(got, 0), x.ctx.field(got, 1)
    ety = x.ctx.vec(edits).ety
    path = focus_path(x, f)
    ws = []
    for kind, at, segs in wants:
        vals = VecV(segs, node_ty(x))
        if x.decide(x.eq(x.ctx.vlen(vals), 0)):
            continue
        ws.append(mk_edit(x, ety, kind, path, off_val(x, oty, at), vals))
    edits_list(x, edits, ws, what)
    x.need(pos, mk_struct(x, pos.ty, row_indices=path, offset=off_val(x, oty, o)), what + ": the caret")


def node_ty(x):
    return x.ctx.elem_ty(x.argtys("do_insert_at_range")[1])


def remove_setup(x, mode, f, s, e):
    root = "do_remove_at_caret"
    tys = x.argtys(root)
    rty = x.to(tys[1])
    oty = dict(x.prog.fields(rty))["start"]
    r = mk_struct(x, rty, row_focus=f, start=off_val(x, oty, s), end=off_val(x, oty, e))
    got = x.run(root, x.ref(x.sym("settings", x.to(tys[0]))), x.ref(r), mk_variant(x, tys[2], mode))
    return got, oty


def removed(x, chain, f, o, mode, most):
    """Expected (row focus, [edit], caret offset) of deleting at a collapsed caret; no edits: a move; None: nothing."""
    v = row_vec(x, focus_row(x, f))
    n = x.ctx.vlen(v)
    left = mode == "Left"
    if not x.decide(x.eq(o, 0) if left else x.ge(o, n)):
        i = o - 1 if left else o
        node = x.ctx.index(v, i)
        one = x.ctx.slice(v, i, ONE).segs
        if not is_container(x, node):
            return f, [("Delete", i, one)], i
        if container_kind(x, node)[0] in ("Sub", "Sup") and not left:
            kind, cells, k = fixed_cells(x, node, most)
            return f, [("Delete", i, one), ("Insert", i, contents(x, cells, k))], i
        return None
    if not chain:
        return None
    pf, nf, i, j = chain[-1]
    node = node_value(x, nf)
    kind, cells, k = fixed_cells(x, node, most)
    x.assume(x.lt(j, k))
    one = x.ctx.slice(row_vec(x, focus_row(x, pf)), i, ONE).segs
    unwrapped = [("Delete", i, one), ("Insert", i, contents(x, cells, k))]
    if kind in ("Sub", "Sup") and left:
        return pf, unwrapped, i
    if kind in ("Fraction", "Root") and x.decide(x.eq(j, 1 if left else 0)):
        return pf, unwrapped, i + row_len(x, x.ctx.index(cells, ZERO))
    if x.decide(x.eq(j, 0 if left else k - 1)):
        if all([x.decide(x.eq(row_len(x, x.ctx.index(cells, x.p(c))), 0)) for c in range(k)]):
            return pf, unwrapped, i
    return None


def remove_ob(mode, depth, start, inside, most):
    def ob(x):
        chain, f = row_at_depth(x, depth, start)
        n = row_len(x, focus_row(x, f))
        o = x.int("offset")
        x.assume(x.ge(n, o))
        if inside is not None:
            edge(x, o, n, mode, not inside)
        if chain:
            fixed_cells(x, node_value(x, chain[-1][1]), most)
        want = removed(x, chain, f, o, mode, most)
        got, oty = remove_setup(x, mode, f, o, o)
        what = "deleting to the " + mode.lower()
        if want is not None:
            removal_is(x, got, want[0], want[1], want[2], oty, what)
            return
        place = moved(x, chain, f, o, mode)
        if place is None:
            if option(x, got) is not None:
                # the caret staying where it is counts as nothing
                removal_is(x, got, f, [], o, oty, what)
            return
        removal_is(x, got, place[0], [], place[1], oty, what)
    return ob


def remove_selection_ob(mode):
    """A selection is deleted whatever the mode; the empty one only in mode Range."""
    def ob(x):
        f = row_focus_in(x, "focus")
        n = row_len(x, focus_row(x, f))
        s, e = x.int("start"), x.int("end")
        x.assume(x.ge(n, s), x.ge(n, e))
        lo, hi = shape(x, True, s, e)
        if mode != "Range":
            x.assume(x.lt(lo, hi))
        got, oty = remove_setup(x, mode, f, s, e)
        removal_is(x, got, f, [("Delete", lo, x.ctx.slice(row_vec(x, focus_row(x, f)), lo, hi - lo).segs)], lo, oty, "deleting a selection")
    return ob


def insert_range_ob(x):
    """Typing replaces the selection; the caret ends up behind the new elements."""
    root = "do_insert_at_range"
    tys = x.argtys(root)
    r, f, s, e, n = range_input(x, x.to(tys[0]))
    lo, hi = shape(x, True, s, e)
    vals = x.sym("values", tys[1])
    v = x.ctx.vec(vals)
    got = x.run(root, x.ref(r), vals)
    oty = x.ctx.get(r, "start").ty
    old = x.ctx.slice(row_vec(x, focus_row(x, f)), lo, hi - lo).segs
    removal_is(x, got, f, [("Delete", lo, old), ("Insert", lo, v.segs)], lo + x.ctx.vlen(v), oty, "inserting at a selection")


def m02(tier):
    most = 6 if tier == "thorough" else 4
    out = [Ob("inserting at a selection", insert_range_ob)]
    for m in ("Left", "Right", "Range"):
        out.append(Ob("deleting a selection, mode " + m, remove_selection_ob(m)))
    for m in ("Left", "Right"):
        out.append(Ob("deleting to the %s, element on that side" % m.lower(), remove_ob(m, 0, "any", True, most), unroll=most + 2))
        out.append(Ob("deleting to the %s, at the edge of a child row" % m.lower(), remove_ob(m, 1, "any", False, most), unroll=most + 2))
        out.append(Ob("deleting to the %s, at the edge of the formula" % m.lower(), remove_ob(m, 0, "root", False, most), unroll=most + 2))
    return out
