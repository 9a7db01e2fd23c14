"""What all obligations about formula trees share: the invariants of their inputs and small readers."""
from engine.explore import *
from engine.values import *
from engine.poly import P, ZERO, ONE, ATOMS, atom_id
from engine.ctx import Hooks
from engine.models import FmtV

OFF = 0


class TreeHooks(Hooks):
    """Class invariants of the inputs: every grid has at least one column and whole rows only."""

    def __init__(self):
        self.seq_types = {}
        self.term_types = {}

    def grid_shape(self, ctx, ty):
        """(index of the cell vector, index of the width) of a GridVec type."""
        fs = ctx.prog.fields(ty)
        vs = [i for i, f in enumerate(fs) if ctx.prog.adt(f[1]) == "std::vec::Vec"]
        ws = [i for i, f in enumerate(fs) if ctx.prog.t(f[1])["k"] == "uint"]
        if len(vs) != 1 or len(ws) != 1:
            raise Unknown("representation of GridVec")
        return vs[0], ws[0]

    def is_grid(self, ctx, ty):
        return ty is not None and (ctx.prog.adt(ty) or "").endswith("::GridVec")

    def atom(self, ctx, a, key):
        if key[0] == "int" and isinstance(key[1], tuple) and key[1][0] == "f":
            g = key[1][1]
            ty = ctx.type_of(g)
            if self.is_grid(ctx, ty):
                _, w = self.grid_shape(ctx, ty)
                if ctx.prog.fields(ty)[w][0] == key[1][2]:
                    ctx.add_ge(P.a(a) - 1)

    def length(self, ctx, v):
        t = v.term
        if t[0] == "f":
            ty = ctx.type_of(t[1])
            if self.is_grid(ctx, ty):
                c, w = self.grid_shape(ctx, ty)
                fs = ctx.prog.fields(ty)
                if fs[c][0] == t[2]:
                    wv = ctx.mk(fs[w][1], ("f", t[1], fs[w][0]))
                    return wv * ctx.atom(("rows", t[1]))
        return None


def sub_ty(prog, ty, *path):
    for p in path:
        fs = prog.fields(ty)
        ty = next(f[1] for f in fs if f[0] == p)
    return ty


# ---- readers (representation independent where the fields are private) ------------------------------
def only_vec(x, v):
    """The vector inside a newtype (RowIndices)."""
    fs = x.prog.fields(v.ty)
    vs = [i for i, f in enumerate(fs) if x.prog.adt(f[1]) == "std::vec::Vec"]
    if len(vs) != 1:
        raise Unknown("representation of " + x.prog.text(v.ty))
    return x.ctx.vec(x.ctx.field(v, vs[0]))


def path_len(x, v):
    return x.ctx.vlen(only_vec(x, v))


def path_at(x, v, i):
    """(element index, row index) of the i-th step."""
    e = x.ctx.index(only_vec(x, v), x.p(i))
    return x.ctx.field(e, 0), x.ctx.field(e, 1)


def off(x, v):
    """usize inside an Offset."""
    return x.ctx.field(v, 0)


def row_vec(x, row):
    return x.ctx.vec(x.ctx.get(row, "values"))


def row_len(x, row):
    return x.ctx.vlen(row_vec(x, row))


def grid_parts(x, grid):
    """(cells, width) of a GridVec value."""
    c, w = TreeHooks.grid_shape(None, x.ctx, grid.ty)
    return x.ctx.vec(x.ctx.field(grid, c)), x.ctx.field(grid, w)


def grid_rows(x, grid):
    cells, w = grid_parts(x, grid)
    return x.ctx.divmod(x.ctx.vlen(cells), w)[0]


def mk_like(x, v, **kw):
    """Copy of a struct value with some public fields replaced."""
    v = x.ctx.expand(v)
    fs = x.prog.fields(v.ty, v.variant)
    for k in kw:
        if k not in [f[0] for f in fs]:
            raise Missing("field `%s` of %s" % (k, x.prog.text(v.ty)))
    return Agg(v.ty, v.variant, [kw.get(n, v.fields[i]) for i, (n, _) in enumerate(fs)])


def mk_struct(x, ty, **kw):
    fs = x.prog.fields(ty)
    if {f[0] for f in fs} != set(kw):
        raise Missing("fields of %s" % x.prog.text(ty))
    return Agg(ty, 0, [kw[f[0]] for f in fs])


def mk_variant(x, ty, name, *vals):
    i = x.prog.variant_index(ty, name)
    if i is None:
        raise Missing("variant %s of %s" % (name, x.prog.text(ty)))
    return Agg(ty, i, vals)


def mk_tuple1(ty, v):
    return Agg(ty, 0, (v,))


def set_variant(x, v, name):
    """Restrict a symbolic enum to one variant."""
    if not isinstance(v, Sym):
        if not x.ctx.is_variant(v, name):
            raise Dead()
        return
    i = x.prog.variant_index(v.ty, name)
    if i is None:
        raise Missing("variant %s of %s" % (name, x.prog.text(v.ty)))
    t = x.ctx.cterm(v.term)
    if t in x.ctx.variants:
        if x.ctx.variants[t] != i:
            raise Dead()
        return
    x.ctx.variants[t] = i
    x.ctx.variant_tys[t] = v.ty


def node_grid(x, node):
    """Grid of a container element."""
    vi = x.prog.variant_index(node.ty, "Container")
    for i, (n, t) in enumerate(x.prog.fields(node.ty, vi)):
        if (x.prog.adt(t) or "").endswith("::GridVec"):
            return x.ctx.field(node, i, variant=vi), i, vi
    raise Missing("grid of a container")


def step(x, row, i, j):
    """Assume element i of a row is a container with a cell j; returns the child row."""
    v = row_vec(x, row)
    x.assume(x.lt(i, x.ctx.vlen(v)))
    node = x.ctx.index(v, i)
    set_variant(x, node, "Container")
    grid, _, _ = node_grid(x, node)
    cells, w = grid_parts(x, grid)
    x.assume(x.lt(j, x.ctx.vlen(cells)))
    return x.ctx.index(cells, j)


def walk(x, root, path, depth):
    """Assume `path` (RowIndices value of known length) is valid from `root`; list of rows passed."""
    rows = [root]
    for k in range(depth):
        i, j = path_at(x, path, k)
        rows.append(step(x, rows[-1], i, j))
    return rows


def choose_depth(x, path, most):
    """Split on the number of steps of a path."""
    n = path_len(x, path)
    for d in range(most + 1):
        if x.decide(x.eq(n, d)):
            return d
    raise Unknown("paths of more than %d steps" % most)


def place_row(x, rowref, path, depth):
    """Ref to the row a path leads to, for writing (spec side)."""
    it = x.it
    r = rowref
    for k in range(depth):
        i, j = path_at(x, path, k)
        r = place_cell(x, place_elem(x, r, i), j)
    return r


def field_ref(x, ref, name):
    v = x.ctx.read(ref)
    for i, (n, _) in enumerate(x.prog.fields(v.ty)):
        if n == name:
            return Ref(ref.cell, ref.path + ((i, None),), None, True)
    raise Missing("field `%s` of %s" % (name, x.prog.text(v.ty)))


def place_elem(x, rowref, i):
    return x.it.elem_place(field_ref(x, rowref, "values"), i, True)


def grid_ref(x, noderef):
    _, gi, vi = node_grid(x, x.ctx.read(noderef))
    return Ref(noderef.cell, noderef.path + ((gi, vi),), None, True)


def place_cell(x, noderef, j):
    g = grid_ref(x, noderef)
    c, _ = TreeHooks.grid_shape(None, x.ctx, x.ctx.read(g).ty)
    return x.it.elem_place(Ref(g.cell, g.path + ((c, None),), None, True), j, True)


def panics(x, name, *args):
    """Run; (value, None) or (None, panic)."""
    try:
        return x.run(name, *args), None
    except Panic as e:
        return None, e


def option(x, v):
    """None or the payload of an Option value."""
    return x.ctx.vget(v, "Some", "0") if x.ctx.is_variant(v, "Some") else None


def deref(x, v):
    return x.ctx.read(x.it.deref(v))


def seq_of(x, v):
    return x.it.seq(v)


def as_int(x, v):
    """A usize, possibly wrapped in one-field structs."""
    while not isinstance(v, P):
        if isinstance(v, (Sym, Agg)) and len(x.prog.fields(v.ty)) == 1:
            v = x.ctx.field(v, 0)
        else:
            raise Unknown("expected a number, found %r" % (v,))
    return v


class Ob:
    """One obligation: a property clause on one class of abstract inputs."""

    def __init__(self, name, run, hooks=TreeHooks, unroll=3, budget=60.0, max_paths=20000, setup=None):
        self.name = name
        self.run = run
        self.hooks = hooks
        self.unroll = unroll
        self.budget = budget
        self.max_paths = max_paths
        self.setup = setup


def with_vec(x, v, vec):
    """A newtype around a vector with another vector inside (RowIndices)."""
    return Agg(v.ty, 0, [vec if x.prog.adt(f[1]) == "std::vec::Vec" else x.ctx.field(v, i)
                         for i, f in enumerate(x.prog.fields(v.ty))])


def field_of(x, v, what):
    """The only field of a struct whose type is `what` (suffix of the type's name); works on private fields."""
    hits = [i for i, f in enumerate(x.prog.fields(v.ty)) if (x.prog.adt(f[1]) or "").endswith("::" + what)]
    if len(hits) != 1:
        raise Unknown("representation of " + x.prog.text(v.ty))
    return x.ctx.field(v, hits[0])


def pget(x, v, *names):
    for n in names:
        v = x.ctx.get(v, n)
    return v


def minimum(x, a, b):
    return a if x.decide(x.ge(b, a)) else b


def maximum(x, a, b):
    return a if x.decide(x.ge(a, b)) else b
