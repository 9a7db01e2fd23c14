"""R01: stored positions and ranges under row edits."""
from .base import *


def offset_like(x, o, v):
    return mk_tuple1(o.ty, v)


def expected(x, path, lo, hi, epath, o, n, kind):
    """Where (path, lo, hi) with lo <= hi is after the edit; (path, lo, hi)."""
    pv, ev = only_vec(x, path), only_vec(x, epath)
    pre, how, _, _ = x.ctx.common_prefix(pv, ev, pv.ety)
    if how in ("diff", "a"):
        return path, lo, hi, how                # unrelated row, or an outer row
    if how == "both":
        if kind == "Insert":
            nlo = lo + n if x.decide(x.lt(o, lo)) else lo
            nhi = hi + n if x.decide(x.ge(hi, o)) else hi
        else:
            def back(v):
                if x.decide(x.ge(o, v)):
                    return v
                return maximum(x, v - n, o)
            nlo, nhi = back(lo), back(hi)
        return path, nlo, nhi, how
    # the edited row is an ancestor: the element the path goes through there may move
    k = x.ctx.vlen(ev)
    st = x.ctx.index(pv, k)
    idx, sub = x.ctx.field(st, 0), x.ctx.field(st, 1)
    if kind == "Insert":
        new = idx + n if x.decide(x.ge(idx, o)) else idx
    else:
        if x.decide(x.ge(idx, o)):
            if x.decide(x.lt(idx, o + n)):
                return epath, o, o, "swallowed"
            new = idx - n
        else:
            new = idx
    ln = x.ctx.vlen(pv)
    segs = x.ctx.slice(pv, ZERO, k).segs + (Elem(Cell(Agg(st.ty, 0, [new, sub]))),) + x.ctx.slice(pv, k + 1, ln - k - 1).segs
    return with_vec(x, path, VecV(segs, pv.ety)), lo, hi, how


def setup_edit(x, root, kind, n=None):
    ety = x.to(x.argtys(root)[1])
    e = x.sym("edit", ety)
    set_variant(x, e, "Row")
    re = x.ctx.field(e, 0, variant=x.prog.variant_index(ety, "Row"))
    set_variant(x, x.ctx.get(re, "edit_type"), kind)
    if n is not None:
        x.assume(x.eq(path_len(x, pget(x, re, "position", "row_indices")), n))
    return e, pget(x, re, "position", "row_indices"), off(x, pget(x, re, "position", "offset")), x.ctx.vlen(x.ctx.vec(x.ctx.get(re, "values")))


def range_ob(kind, backwards, lens=(None, None)):
    def ob(x):
        root = "range_apply_edit"
        e, epath, o, n = setup_edit(x, root, kind, lens[1])
        r = x.sym("range", x.to(x.argtys(root)[0]))
        path, so, eo = x.ctx.get(r, "row_indices"), x.ctx.get(r, "start"), x.ctx.get(r, "end")
        s, t = off(x, so), off(x, eo)
        if lens[0] is not None:
            x.assume(x.eq(path_len(x, path), lens[0]))
        if backwards:
            x.assume(x.lt(t, s))
            lo, hi = t, s
        else:
            x.assume(x.ge(t, s))
            lo, hi = s, t
        np, nlo, nhi, _ = expected(x, path, lo, hi, epath, o, n, kind)
        if backwards:
            nlo, nhi = nhi, nlo
        want = mk_struct(x, r.ty, row_indices=np, start=offset_like(x, so, nlo), end=offset_like(x, eo, nhi))
        got = x.ref(r, True)
        x.run(root, got, x.ref(e))
        x.need(x.ctx.read(got), want, "the range after %s" % ("an insertion" if kind == "Insert" else "a deletion"))
    return ob


def position_ob(kind, lens=(None, None)):
    def ob(x):
        root = "position_apply_edit"
        e, epath, o, n = setup_edit(x, root, kind, lens[1])
        r = x.sym("position", x.to(x.argtys(root)[0]))
        path, so = x.ctx.get(r, "row_indices"), x.ctx.get(r, "offset")
        s = off(x, so)
        if lens[0] is not None:
            x.assume(x.eq(path_len(x, path), lens[0]))
        np, nlo, _, _ = expected(x, path, s, s, epath, o, n, kind)
        want = mk_struct(x, r.ty, row_indices=np, offset=offset_like(x, so, nlo))
        got = x.ref(r, True)
        x.run(root, got, x.ref(e))
        x.need(x.ctx.read(got), want, "the position after %s" % ("an insertion" if kind == "Insert" else "a deletion"))
    return ob


def r01(tier):
    kinds = ("Insert", "Delete")
    out = [Ob("%s against a %s range" % (k, "backwards" if b else "forwards or collapsed"), range_ob(k, b), budget=30)
           for k in kinds for b in (False, True)]
    out += [Ob("%s against a position" % k, position_ob(k), budget=30) for k in kinds]
    deep = 3 if tier == "thorough" else 2
    for a in range(deep + 1):
        for e in range(deep + 1):
            t = " of %d steps, edit %d steps down" % (a, e)
            out += [Ob("%s against a %s range%s" % (k, "backwards" if b else "forwards or collapsed", t), range_ob(k, b, (a, e)), unroll=5)
                    for k in kinds for b in (False, True)]
            out += [Ob("%s against a position%s" % (k, t), position_ob(k, (a, e)), unroll=5) for k in kinds]
    return out


# ---- R02: table edits -----------------------------------------------------------------------------
def grid_edit_in(x, root, n, kind=None):
    ety = x.to(x.argtys(root)[1])
    e = x.sym("edit", ety)
    set_variant(x, e, "Grid")
    ge = x.ctx.field(e, 0, variant=x.prog.variant_index(ety, "Grid"))
    ei = x.ctx.get(ge, "element_indices")
    path = x.ctx.get(ei, "row_indices")
    if n is not None:
        x.assume(x.eq(path_len(x, path), n))
    return e, path, x.ctx.get(ei, "index")


def outside_ob(root, lens=(None, None)):
    """A stored place that does not lie in the edited table stays as it is."""
    def ob(x):
        e, epath, idx = grid_edit_in(x, root, lens[1])
        r = x.sym("place", x.to(x.argtys(root)[0]))
        path = x.ctx.get(r, "row_indices")
        if lens[0] is not None:
            x.assume(x.eq(path_len(x, path), lens[0]))
        pv, ev = only_vec(x, path), only_vec(x, epath)
        _, how, _, _ = x.ctx.common_prefix(pv, ev, pv.ety)
        if how not in ("diff", "a", "both"):
            st = x.ctx.index(pv, x.ctx.vlen(ev))
            if x.decide(x.eq(x.ctx.field(st, 0), as_int(x, idx))):
                raise Dead()                    # inside the table
        got = x.ref(r, True)
        x.run(root, got, x.ref(e))
        x.need(x.ctx.read(got), r, "a place outside an edited table")
    return ob


def announced_ob(kind, direction):
    def ob(x):
        root = "grid_edit_row_indices_edit"
        ge = x.sym("edit", x.to(x.argtys(root)[0]))
        set_variant(x, x.ctx.get(ge, "edit_type"), kind)
        set_variant(x, x.ctx.get(ge, "direction"), direction)
        vg = x.ctx.get(ge, "values")
        vcells, vw = grid_parts(x, vg)
        n = vw if direction == "Column" else grid_rows(x, vg)
        at = as_int(x, x.ctx.get(ge, "row_or_column"))
        got = x.run(root, x.ref(ge))
        if not x.ctx.is_variant(got, "GridIndexEdit"):
            x.fail("a table edit announces a shift in a row")
        f = lambda k: x.ctx.vget(got, "GridIndexEdit", k)
        old, new = (at, at + n) if kind == "Insert" else (at + n, at)
        x.need(as_int(x, f("old_offset")), old, "where the shifted cells were")
        x.need(as_int(x, f("new_offset")), new, "where the shifted cells are")
        x.need(f("direction"), x.ctx.get(ge, "direction"), "the direction of the shift")
        x.need(deref(x, f("element_indices")), x.ctx.get(ge, "element_indices"), "the table of the shift")
        if x.decide(x.ge(n, 1)):
            x.need(x.run("row_indices_edit_is_insert", x.ref(got)), kind == "Insert", "whether the shift makes room")
    return ob


def r02(tier):
    out = [Ob("%s, any depth" % r, outside_ob(r), budget=30) for r in ("range_apply_edit", "position_apply_edit")]
    deep = 3 if tier == "thorough" else 2
    out += [Ob("%s, place %d steps down, table %d steps down" % (r, a, e), outside_ob(r, (a, e)), unroll=5)
            for r in ("range_apply_edit", "position_apply_edit") for a in range(deep + 1) for e in range(deep + 1)]
    out += [Ob("announced: %s %s" % (k, d), announced_ob(k, d)) for k in ("Insert", "Delete") for d in ("Row", "Column")]
    return out
