"""F01, F02: walking the tree with row and element focuses."""
from .base import *
from .selection import focus_row, focus_path, run_or_panic


def rget(x, root, v):
    """Result of a by-reference accessor, dereferenced."""
    return deref(x, x.run(root, x.ref(v)))


def row_focus_in(x, name="focus"):
    return x.sym(name, x.argtys("focus_row_child_at")[0])


def node_focus_in(x, name="focus"):
    """An element focus as the code makes it: reached from an arbitrary row focus."""
    f = row_focus_in(x, name)
    i = x.int("i")
    x.assume(x.lt(i, row_len(x, focus_row(x, f))))
    n = option(x, x.run("focus_row_child_at", f, i))
    if n is None:
        x.fail("stepping to an existing element fails")
    return f, i, n


def is_focus(x, got, row, path, what):
    """got is a row focus on `row` with `path`."""
    x.need(rget(x, "focus_row_row", got), row, what + ": row")
    x.need(rget(x, "focus_row_indices", got), path, what + ": path")


def element_place(x, ei, path, i, what):
    x.need(x.ctx.get(ei, "row_indices"), path, what + ": path")
    x.need(x.ctx.get(ei, "index"), i, what + ": index")


def pushed(x, path, step_ty, i, j):
    v = only_vec(x, path)
    return with_vec(x, path, VecV(v.segs + (Elem(Cell(Agg(step_ty, 0, (x.p(i), x.p(j))))),), v.ety))


def start_ob(root):
    def ob(x):
        t = x.sym("input", x.to(x.argtys(root)[0]))
        f = x.run(root, x.ref(t))
        row = t if root == "focus_from_root" else x.ctx.get(t, "root")
        x.need(rget(x, "focus_row_row", f), row, "the row of the root focus")
        if not x.decide(x.eq(path_len(x, rget(x, "focus_row_indices", f)), 0)):
            x.fail("the path of the root focus is not empty")
        if option(x, x.run("focus_row_index_in_parent", x.ref(f))) is not None:
            x.fail("the root row has an index in a parent")
        if option(x, x.run("focus_row_parent", f)) is not None:
            x.fail("the root row has a parent")
    return ob


def child_ob(x):
    f = row_focus_in(x)
    i = x.int("i")
    row, path = focus_row(x, f), focus_path(x, f)
    v = row_vec(x, row)
    exists = x.decide(x.lt(i, x.ctx.vlen(v)))
    got = option(x, x.run("focus_row_child_at", f, i))
    if not exists:
        if got is not None:
            x.fail("stepping to a missing element succeeds")
        return
    if got is None:
        x.fail("stepping to an existing element fails")
    x.need(rget(x, "focus_node_node", got), x.ctx.index(v, i), "the element stepped to")
    x.need(x.run("focus_node_index_in_parent", x.ref(got)), i, "the index of the element stepped to")
    element_place(x, x.run("focus_node_element_indices", x.ref(got)), path, i, "the place of the element stepped to")
    back = x.run("focus_node_parent", got)
    x.need(back, f, "the row after stepping to an element and back")


def node_at_ob(x):
    root = "focus_row_node_at"
    f = row_focus_in(x)
    i = x.int("i")
    v = row_vec(x, focus_row(x, f))
    exists = x.decide(x.lt(i, x.ctx.vlen(v)))
    got = option(x, x.run(root, x.ref(f), i))
    if exists != (got is not None):
        x.fail("element lookup succeeds exactly for existing elements")
    if exists:
        x.need(deref(x, got), x.ctx.index(v, i), "the element looked up")


def lengths_ob(x):
    f = row_focus_in(x)
    row = focus_row(x, f)
    n = row_len(x, row)
    x.need(x.run("focus_row_len", x.ref(f)), n, "the length of a focused row")
    x.need(x.run("row_len", x.ref(row)), n, "the length of a row")
    empty = x.decide(x.eq(n, 0))
    x.need(x.run("focus_row_is_empty", x.ref(f)), empty, "whether a focused row is empty")
    x.need(x.run("row_is_empty", x.ref(row)), empty, "whether a row is empty")


def cell_of(x, node, j):
    """The child row of an element, or None."""
    if x.prog.t(node.ty)["variants"][x.ctx.variant(node)]["name"] != "Container":
        return None
    grid, _, _ = node_grid(x, node)
    cells, w = grid_parts(x, grid)
    return x.ctx.index(cells, j) if x.decide(x.lt(j, x.ctx.vlen(cells))) else None


def step_ty(x):
    return x.ctx.elem_ty(next(t for n, t in x.prog.fields(x.to(x.argtys("indices_len")[0]))))


def enter_ob(x):
    f, i, n = node_focus_in(x)
    j = x.int("j")
    row, path = focus_row(x, f), focus_path(x, f)
    node = x.ctx.index(row_vec(x, row), i)
    child = cell_of(x, node, j)
    got = x.run("focus_node_child_at", n, j)
    if child is None:
        if x.ctx.is_variant(got, "Ok"):
            x.fail("stepping into a missing child row succeeds")
        same = x.ctx.vget(got, "Err", "0")
        x.need(rget(x, "focus_node_node", same), node, "the element handed back")
        x.need(x.run("focus_node_index_in_parent", x.ref(same)), i, "the index of the element handed back")
        x.need(x.run("focus_node_parent", same), f, "the parent of the element handed back")
        return
    if not x.ctx.is_variant(got, "Ok"):
        x.fail("stepping into an existing child row fails")
    c = x.ctx.vget(got, "Ok", "0")
    is_focus(x, c, child, pushed(x, path, step_ty(x), i, j), "the child row stepped into")
    idx = option(x, x.run("focus_row_index_in_parent", x.ref(c)))
    if idx is None:
        x.fail("a child row has no index in its parent")
    x.need(idx, j, "the index of the child row in its parent")


def leave_ob(x):
    f, i, n = node_focus_in(x)
    j = x.int("j")
    row, path = focus_row(x, f), focus_path(x, f)
    node = x.ctx.index(row_vec(x, row), i)
    if cell_of(x, node, j) is None:
        return
    got = x.run("focus_node_child_at", n, j)
    if not x.ctx.is_variant(got, "Ok"):
        x.fail("stepping into an existing child row fails")
    up = option(x, x.run("focus_row_parent", x.ctx.vget(got, "Ok", "0")))
    if up is None:
        x.fail("a child row has no parent")
    x.need(rget(x, "focus_node_node", up), node, "the element stepped back to")
    x.need(x.run("focus_node_index_in_parent", x.ref(up)), i, "the index of the element stepped back to")
    element_place(x, x.run("focus_node_element_indices", x.ref(up)), path, i, "the place of the element stepped back to")
    x.need(x.run("focus_node_parent", up), f, "the row after stepping into a child row and back")


def index_ob(x):
    """A row focus with an arbitrary path: the recorded index is the last one."""
    root = "focus_row_index_in_parent"
    f = x.sym("focus", x.to(x.argtys(root)[0]))
    v = only_vec(x, focus_path(x, f))
    n = x.ctx.vlen(v)
    got = option(x, x.run(root, x.ref(f)))
    if x.decide(x.eq(n, 0)):
        if got is not None:
            x.fail("the root row has an index in a parent")
        return
    if got is None:
        x.fail("a child row has no index in its parent")
    x.need(got, x.ctx.field(x.ctx.index(v, n - 1), 1), "the index of the row in its parent")


def row_at_ob(x):
    root = "focus_row_row_at"
    f = row_focus_in(x)
    ri = x.sym("step", x.argtys(root)[1])
    i, j = x.ctx.field(ri, 0), x.ctx.field(ri, 1)
    row, path = focus_row(x, f), focus_path(x, f)
    v = row_vec(x, row)
    child = cell_of(x, x.ctx.index(v, i), j) if x.decide(x.lt(i, x.ctx.vlen(v))) else None
    got = option(x, x.run(root, f, ri))
    if (child is not None) != (got is not None):
        x.fail("stepping two levels succeeds exactly if the child row exists")
    if child is not None:
        is_focus(x, got, child, pushed(x, path, step_ty(x), i, j), "the row stepped to")


def walk_ob(depth, n0):
    """Following a path from a row (itself `n0` or more steps down) arrives at the row the path names."""
    def ob(x):
        root = "focus_walk_down"
        f = row_focus_in(x)
        p = x.sym("path", x.to(x.argtys(root)[1]))
        x.assume(x.eq(path_len(x, p), depth))
        row, path = focus_row(x, f), focus_path(x, f)
        end = walk(x, row, p, depth)[-1]
        got = x.run(root, f, x.ref(p))
        v, pv = only_vec(x, path), only_vec(x, p)
        is_focus(x, got, end, with_vec(x, path, VecV(v.segs + pv.segs, v.ety)), "the row walked to")
        for k in range(depth):
            up = option(x, x.run("focus_row_parent", got))
            if up is None:
                x.fail("a child row has no parent")
            got = x.run("focus_node_parent", up)
        x.need(got, f, "the row after walking down and back up")
    return ob


def same_ob(root):
    """Focuses of one tree are the same exactly when their places are."""
    def ob(x):
        tys = x.argtys(root)
        a, b = x.sym("a", x.to(tys[0])), x.sym("b", x.to(tys[1]))
        if root == "focus_row_eq":
            pa, pb = focus_path(x, a), focus_path(x, b)
            same = x.ctx.seq_eq(only_vec(x, pa), only_vec(x, pb), only_vec(x, pa).ety)
        else:
            ea, eb = [x.run("focus_node_element_indices", x.ref(v)) for v in (a, b)]
            same = x.decide(x.eq(x.ctx.get(ea, "index"), x.ctx.get(eb, "index"))) and x.ctx.seq_eq(
                only_vec(x, x.ctx.get(ea, "row_indices")), only_vec(x, x.ctx.get(eb, "row_indices")), None)
        x.need(x.run(root, x.ref(a), x.ref(b)), same, "whether two focuses are the same")
    return ob


def f01(tier):
    out = [Ob("starting at the root (%s)" % r, start_ob(r)) for r in ("focus_from_root", "tree_root_focus")]
    out += [Ob("stepping to an element and back", child_ob), Ob("looking up an element", node_at_ob), Ob("lengths", lengths_ob),
            Ob("stepping into a child row", enter_ob), Ob("stepping into a child row and back", leave_ob),
            Ob("index in parent", index_ob), Ob("stepping two levels", row_at_ob)]
    for d in range(5 if tier == "thorough" else 4):
        out.append(Ob("walking a path of %d steps and back" % d, walk_ob(d, 0), unroll=6))
    out += [Ob("sameness: " + r, same_ob(r)) for r in ("focus_row_eq", "focus_node_eq")]
    return out


# ---- F02 ------------------------------------------------------------------------------------------
def neighbour_ob(root, direction):
    def ob(x):
        tys = x.argtys(root)
        v = x.sym("row", x.to(tys[0]))
        row = focus_row(x, v) if root.startswith("focus") else v
        n = row_len(x, row)
        o = x.sym("offset", tys[1])
        x.assume(x.ge(n, off(x, o)))
        d = x.sym("direction", tys[2])
        set_variant(x, d, direction)
        got = option(x, x.run(root, x.ref(v), o, d))
        k = off(x, o)
        want = k - 1 if direction == "Left" else k
        exists = not x.decide(x.eq(k, 0)) if direction == "Left" else x.decide(x.lt(k, n))
        if exists != (got is not None):
            x.fail("the element %s of an offset exists exactly if the offset is not at that end of the row" % direction)
        if exists:
            x.need(got, want, "the element next to the offset")
            x.check(x.lt(got, n), "the element next to an offset lies in the row")
    return ob


def direction_ob(root, name):
    def ob(x):
        d = mk_variant(x, x.argtys(root)[0], name)
        if not x.ctx.is_variant(x.run(root, d), name):
            x.fail("%s converted to a general direction is no longer %s" % (name, name))
    return ob


def f02(tier):
    return [Ob("converting " + n, direction_ob("direction_from_" + k, n)) for k, n in (
        ("horizontal", "Left"), ("horizontal", "Right"), ("vertical", "Up"), ("vertical", "Down"))] + [Ob("%s, %s" % (r, d), neighbour_ob(r, d)) for r in ("row_offset_to_index", "focus_row_offset_to_index") for d in ("Left", "Right")]
