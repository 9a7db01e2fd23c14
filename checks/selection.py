"""E04, O01, S01, S02: edits from selections, order of positions, accessors, spanning ranges."""
from .base import *


# ---- readers --------------------------------------------------------------------------------------
def focus_row(x, f):
    """The row a row focus points at."""
    return x.it.ctx.read(x.it.deref(x.run("focus_row_row", x.ref(f))))


def focus_path(x, f):
    return x.it.ctx.read(x.it.deref(x.run("focus_row_indices", x.ref(f))))


def range_input(x, ty, name="range"):
    """A valid range: both ends inside its row."""
    r = x.sym(name, ty)
    f = x.ctx.get(r, "row_focus")
    n = row_len(x, focus_row(x, f))
    s, e = off(x, x.ctx.get(r, "start")), off(x, x.ctx.get(r, "end"))
    x.assume(x.ge(n, s), x.ge(n, e))
    return r, f, s, e, n


def position_input(x, ty, name="position"):
    p = x.sym(name, ty)
    f = x.ctx.get(p, "row_focus")
    o = off(x, x.ctx.get(p, "offset"))
    n = row_len(x, focus_row(x, f))
    x.assume(x.ge(n, o))
    return p, f, o, n


def shape(x, lo_first, s, e):
    """Split forwards/backwards; (left, right)."""
    if x.decide(x.ge(e, s)):
        return s, e
    return e, s


# ---- E04 ------------------------------------------------------------------------------------------
def tuple_parts(x, v):
    return x.ctx.field(v, 0), x.ctx.field(v, 1)


def mk_edit(x, ety, kind, path, offset, vals):
    """BasicEdit::Row(RowEdit{kind, position, values})."""
    vi = x.prog.variant_index(ety, "Row")
    rty = x.prog.fields(ety, vi)[0][1]
    fs = dict(x.prog.fields(rty))
    pos = mk_struct(x, fs["position"], row_indices=path, offset=offset)
    return mk_variant(x, ety, "Row", mk_struct(x, rty, edit_type=mk_variant(x, fs["edit_type"], kind), position=pos, values=vals))


def edits_are(x, got, wants, what):
    v = x.ctx.vec(got)
    if not x.decide(x.eq(x.ctx.vlen(v), len(wants))):
        x.fail("%s: not exactly %d edits" % (what, len(wants)))
    x.need(got, VecV([Elem(Cell(w)) for w in wants], v.ety), what)


def vec_elem_ty(x, ty):
    return x.ctx.elem_ty(ty)


def off_val(x, ty, v):
    return Agg(ty, 0, (v,))


def remove_ob(x):
    root = "remove_range"
    r, f, s, e, n = range_input(x, x.to(x.argtys(root)[0]))
    lo, hi = shape(x, True, s, e)
    got = x.run(root, x.ref(r))
    edits, pos = tuple_parts(x, got)
    path = focus_path(x, f)
    oty = x.ctx.get(r, "start").ty
    ety = x.ctx.vec(edits).ety
    want = mk_edit(x, ety, "Delete", path, off_val(x, oty, lo), x.ctx.slice(row_vec(x, focus_row(x, f)), lo, hi - lo))
    edits_are(x, edits, [want], "the removal")
    x.need(pos, mk_struct(x, pos.ty, row_indices=path, offset=off_val(x, oty, lo)), "the position after the removal")


def insert_ob(x):
    root = "insert_at_position"
    tys = x.argtys(root)
    p, f, o, n = position_input(x, x.to(tys[0]))
    vals = x.sym("values", tys[1])
    k = x.ctx.vlen(x.ctx.vec(vals))
    got = x.run(root, x.ref(p), vals)
    edits, pos = tuple_parts(x, got)
    path = focus_path(x, f)
    oty = x.ctx.get(p, "offset").ty
    want = mk_edit(x, x.ctx.vec(edits).ety, "Insert", path, off_val(x, oty, o), vals)
    edits_are(x, edits, [want], "the insertion")
    x.need(pos, mk_struct(x, pos.ty, row_indices=path, offset=off_val(x, oty, o + k)), "the position after the insertion")


def replace_ob(x):
    root = "replace_range"
    tys = x.argtys(root)
    r, f, s, e, n = range_input(x, x.to(tys[0]))
    vals = x.sym("values", tys[1])
    k = x.ctx.vlen(x.ctx.vec(vals))
    lo, hi = shape(x, True, s, e)
    got = x.run(root, x.ref(r), vals)
    edits, rng = tuple_parts(x, got)
    path = focus_path(x, f)
    oty = x.ctx.get(r, "start").ty
    ety = x.ctx.vec(edits).ety
    w1 = mk_edit(x, ety, "Delete", path, off_val(x, oty, lo), x.ctx.slice(row_vec(x, focus_row(x, f)), lo, hi - lo))
    w2 = mk_edit(x, ety, "Insert", path, off_val(x, oty, lo), vals)
    edits_are(x, edits, [w1, w2], "the replacement")
    want = mk_struct(x, rng.ty, row_indices=path, start=off_val(x, oty, lo), end=off_val(x, oty, lo + k))
    x.need(rng, want, "the range after the replacement")


def e04(tier):
    return [Ob("removing a range", remove_ob), Ob("inserting at a position", insert_ob), Ob("replacing a range", replace_ob)]


# ---- O01 ------------------------------------------------------------------------------------------
def document_order(x, pa, oa, pb, ob):
    """-1, 0, 1: where place a lies relative to place b when the formula is read left to right."""
    va, vb = only_vec(x, pa), only_vec(x, pb)
    L, how, ea, eb = x.ctx.common_prefix(va, vb, va.ety)
    if how == "diff":
        for i in (0, 1):
            u, v = x.ctx.field(ea, i), x.ctx.field(eb, i)
            if x.decide(x.lt(u, v)):
                return -1
            if x.decide(x.lt(v, u)):
                return 1
        raise Dead()
    if how == "both":
        return -1 if x.decide(x.lt(oa, ob)) else 1 if x.decide(x.lt(ob, oa)) else 0
    if how == "a":              # a lies in an ancestor row of b
        i = x.ctx.field(x.ctx.index(vb, x.ctx.vlen(va)), 0)
        return -1 if x.decide(x.ge(i, oa)) else 1
    i = x.ctx.field(x.ctx.index(va, x.ctx.vlen(vb)), 0)
    return 1 if x.decide(x.ge(i, ob)) else -1


ORD = {-1: "Less", 0: "Equal", 1: "Greater"}


def two_positions(x, root, lens=None):
    tys = x.argtys(root)
    a, b = x.sym("a", x.to(tys[0])), x.sym("b", x.to(tys[1]))
    pa, pb = focus_path(x, x.ctx.get(a, "row_focus")), focus_path(x, x.ctx.get(b, "row_focus"))
    if lens is not None:
        x.assume(x.eq(path_len(x, pa), lens[0]), x.eq(path_len(x, pb), lens[1]))
    return a, b, document_order(x, pa, off(x, x.ctx.get(a, "offset")), pb, off(x, x.ctx.get(b, "offset")))


def order_ob(root, lens=None):
    def ob(x):
        if root == "cmp_indices_and_offset":
            tys = [x.to(t) for t in x.argtys(root)]
            pa, oa, pb, ob_ = [x.sym(n, t) for n, t in zip(("a", "ao", "b", "bo"), tys)]
            if lens is not None:
                x.assume(x.eq(path_len(x, pa), lens[0]), x.eq(path_len(x, pb), lens[1]))
            want = document_order(x, pa, off(x, oa), pb, off(x, ob_))
            got = x.run(root, *[x.ref(v) for v in (pa, oa, pb, ob_)])
        else:
            a, b, want = two_positions(x, root, lens)
            got = x.run(root, x.ref(a), x.ref(b))
            if root == "position_partial_cmp":
                got = option(x, got)
                if got is None:
                    x.fail("positions that do not compare")
        x.need(got, mk_variant(x, got.ty, ORD[want]), "the order of two positions")
    return ob


TEST = {"position_eq": (0,), "position_lt": (-1,), "position_le": (-1, 0), "position_gt": (1,), "position_ge": (0, 1)}


def test_ob(root, lens=None):
    def ob(x):
        a, b, want = two_positions(x, root, lens)
        got = x.run(root, x.ref(a), x.ref(b))
        x.need(got, want in TEST[root], "the comparison %s" % root.split("_")[1])
    return ob


def o01(tier):
    orders = ("cmp_indices_and_offset", "position_cmp", "position_partial_cmp")
    out = [Ob("order: " + r, order_ob(r), budget=30) for r in orders]
    out += [Ob("operator " + r.split("_")[1], test_ob(r), budget=30) for r in TEST]
    deep = 3 if tier == "thorough" else 2
    for a in range(deep + 1):
        for b in range(deep + 1):
            t = ", paths of %d and %d steps" % (a, b)
            out += [Ob("order: " + r + t, order_ob(r, (a, b)), unroll=5) for r in orders]
            out += [Ob("operator " + r.split("_")[1] + t, test_ob(r, (a, b)), unroll=5) for r in TEST]
    return out


# ---- S01 ------------------------------------------------------------------------------------------
def run_or_panic(x, root, *args):
    try:
        return x.run(root, *args), None
    except Panic as p:
        return None, p


def creation_ob(root):
    """new() accepts exactly the offsets inside the row and keeps what it is given."""
    def ob(x):
        tys = x.argtys(root)
        f = x.sym("focus", tys[0])
        os = [x.sym("o%d" % i, t) for i, t in enumerate(tys[1:])]
        n = row_len(x, focus_row(x, f))
        fits = all([x.decide(x.ge(n, off(x, o))) for o in os])
        got, p = run_or_panic(x, root, f, *os)
        if fits and p is not None:
            raise p
        if not fits:
            if p is None:
                x.fail("offset outside the row accepted")
            return
        names = ("offset",) if len(os) == 1 else ("start", "end")
        want = mk_struct(x, got.ty, row_focus=f, **dict(zip(names, os)))
        x.need(got, want, "the created value")
    return ob


def with_range(root, body):
    def ob(x):
        r, f, s, e, n = range_input(x, x.to(x.argtys(root)[0]))
        lo, hi = shape(x, True, s, e)
        body(x, root, r, f, s, e, lo, hi)
    return ob


def simple(want, what):
    def body(x, root, r, f, s, e, lo, hi):
        got = x.run(root, x.ref(r))
        w = want(x, s, e, lo, hi)
        x.need(as_int(x, got) if isinstance(w, P) else got, w, what)
    return body


def position_of(which):
    def body(x, root, r, f, s, e, lo, hi):
        got = x.run(root, x.ref(r))
        oty = x.ctx.get(r, "start").ty
        v = {"start": s, "end": e, "left": lo, "right": hi}[which]
        x.need(got, mk_struct(x, got.ty, row_focus=f, offset=off_val(x, oty, v)), "the %s position" % which)
    return body


def values_body(x, root, r, f, s, e, lo, hi):
    got = x.run(root, x.ref(r))
    x.need(seq_of(x, got), x.ctx.slice(row_vec(x, focus_row(x, f)), lo, hi - lo), "the elements of the range")


def path_body(x, root, r, f, s, e, lo, hi):
    got = x.run(root, x.ref(r))
    x.need(deref(x, got), focus_path(x, f), "the path of the range")


def minimal_body(x, root, r, f, s, e, lo, hi):
    got = x.run(root, x.ref(r))
    oty = x.ctx.get(r, "start").ty
    x.need(got, mk_struct(x, got.ty, row_indices=focus_path(x, f), start=off_val(x, oty, s), end=off_val(x, oty, e)), "the stored range")


def contains_ob(root):
    def ob(x):
        if root == "position_in_range":
            pt, rt = x.to(x.argtys(root)[0]), x.argtys(root)[1]
        else:
            rt, pt = [x.to(t) for t in x.argtys(root)]
        r, f, s, e, n = range_input(x, rt)
        p = x.sym("position", pt)
        lo, hi = shape(x, True, s, e)
        pp, po = focus_path(x, x.ctx.get(p, "row_focus")), off(x, x.ctx.get(p, "offset"))
        path = focus_path(x, f)
        inside = document_order(x, path, lo, pp, po) <= 0 and document_order(x, pp, po, path, hi) <= 0
        got = x.run(root, x.ref(p), r) if root == "position_in_range" else x.run(root, x.ref(r), x.ref(p))
        x.need(got, inside, "whether the range contains the position")
    return ob


def position_plain(root):
    def ob(x):
        p, f, o, n = position_input(x, x.to(x.argtys(root)[0]))
        got = x.run(root, x.ref(p))
        oty = x.ctx.get(p, "offset").ty
        if root == "position_row_indices":
            x.need(deref(x, got), focus_path(x, f), "the path of the position")
        elif root == "position_to_minimal":
            x.need(got, mk_struct(x, got.ty, row_indices=focus_path(x, f), offset=off_val(x, oty, o)), "the stored position")
        else:
            x.need(got, mk_struct(x, got.ty, row_focus=f, start=off_val(x, oty, o), end=off_val(x, oty, o)), "the range at the position")
    return ob


def root_focus(x):
    t = x.sym("tree", x.to(x.argtys("tree_root_focus")[0]))
    return t, x.run("tree_root_focus", x.ref(t))


def stored_ob(root, depth):
    """A stored place read back from the root lies in the row its path names, at its own offsets."""
    def ob(x):
        t, f = root_focus(x)
        m = x.sym("stored", x.to(x.argtys(root)[1]))
        path = x.ctx.get(m, "row_indices")
        x.assume(x.eq(path_len(x, path), depth))
        row = walk(x, x.ctx.get(t, "root"), path, depth)[-1]
        names = ("start", "end") if root.startswith("range") else ("offset",)
        os = [x.ctx.get(m, k) for k in names]
        n = row_len(x, row)
        fits = all([x.decide(x.ge(n, off(x, o))) for o in os])
        got, p = run_or_panic(x, root, f, x.ref(m))
        if fits and p is not None:
            raise p
        if not fits:
            if p is None:
                x.fail("offset outside the row accepted")
            return
        for k, o in zip(names, os):
            x.need(x.ctx.get(got, k), o, "the offset read back")
        g = x.ctx.get(got, "row_focus")
        x.need(focus_path(x, g), path, "the path read back")
        x.need(focus_row(x, g), row, "the row read back")
    return ob


def s01(tier):
    out = [Ob("creating: " + r, creation_ob(r)) for r in ("position_new", "range_new")]
    S = {
        "range_left_offset": lambda x, s, e, lo, hi: lo, "range_right_offset": lambda x, s, e, lo, hi: hi,
        "range_len": lambda x, s, e, lo, hi: hi - lo,
        "range_is_empty": lambda x, s, e, lo, hi: x.decide(x.eq(hi, lo)), "range_is_collapsed": lambda x, s, e, lo, hi: x.decide(x.eq(hi, lo)),
        "range_is_forwards": lambda x, s, e, lo, hi: x.decide(x.ge(e, s)),
    }
    for r, w in S.items():
        out.append(Ob(r, with_range(r, simple(w, r))))
    for w in ("start", "end", "left", "right"):
        r = "range_%s_position" % w
        out.append(Ob(r, with_range(r, position_of(w))))
    out.append(Ob("range_values", with_range("range_values", values_body)))
    out.append(Ob("range_row_indices", with_range("range_row_indices", path_body)))
    out.append(Ob("range_to_minimal", with_range("range_to_minimal", minimal_body)))
    out += [Ob(r, contains_ob(r)) for r in ("range_contains", "position_in_range")]
    out += [Ob(r, position_plain(r)) for r in ("position_row_indices", "position_to_minimal", "range_from_position")]
    for r in ("position_from_minimal", "range_from_minimal"):
        for d in range(5 if tier == "thorough" else 3):
            out.append(Ob("%s, path of %d steps" % (r, d), stored_ob(r, d)))
    return out


# ---- S02 ------------------------------------------------------------------------------------------
def spanning_ob(da, db):
    def ob(x):
        root = "range_from_positions"
        tys = x.argtys(root)
        t, f = root_focus(x)
        tr = x.ctx.get(t, "root")
        pos = []
        pty = x.to(tys[1])
        ipty = x.argtys("focus_walk_down")[1]
        oty = dict(x.prog.fields(pty))["offset"]
        for name, d in (("a", da), ("b", db)):
            path = x.sym(name, x.to(ipty))
            x.assume(x.eq(path_len(x, path), d))
            row = walk(x, tr, path, d)[-1]
            _, f2 = t, x.run("tree_root_focus", x.ref(t))
            g = x.run("focus_walk_down", f2, x.ref(path))
            o = x.int(name + "_offset")
            x.assume(x.ge(row_len(x, row), o))
            pos.append((path, o, mk_struct(x, pty, row_focus=g, offset=off_val(x, oty, o)), row))
        (pa, oa, va, ra), (pb, ob_, vb, rb) = pos
        fw = document_order(x, pa, oa, pb, ob_) <= 0
        la, lb = only_vec(x, pa), only_vec(x, pb)
        L, how, _, _ = x.ctx.common_prefix(la, lb, la.ety)
        k = x.ctx.norm(L).const()
        if k is None:
            raise Unknown("length of the common path")
        start = oa if k == da else x.ctx.field(x.ctx.index(la, x.p(k)), 0) + (0 if fw else 1)
        end = ob_ if k == db else x.ctx.field(x.ctx.index(lb, x.p(k)), 0) + (1 if fw else 0)
        got = x.run(root, x.ref(t), x.ref(va), x.ref(vb))
        x.need(off(x, x.ctx.get(got, "start")), x.p(start), "the start of the spanning range")
        x.need(off(x, x.ctx.get(got, "end")), x.p(end), "the end of the spanning range")
        g = x.ctx.get(got, "row_focus")
        want = with_vec(x, pa, x.ctx.slice(la, ZERO, x.p(k)))
        x.need(focus_path(x, g), want, "the path of the spanning range")
        x.need(focus_row(x, g), walk(x, tr, want, k)[-1], "the row of the spanning range")
    return ob


def s02(tier):
    deep = 3 if tier == "thorough" else 2
    return [Ob("positions %d and %d steps down" % (a, b), spanning_ob(a, b), unroll=4) for a in range(deep + 1) for b in range(deep + 1)]
