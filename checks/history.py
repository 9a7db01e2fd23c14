"""U01, U02: the undo history and the inverse of recorded actions."""
import itertools
from .base import *

OPS = {"manager_push": "push", "manager_undo": "undo", "manager_redo": "redo"}


def stacks(x, ty):
    """Which of the two vectors of the manager is which: (index of the undo vector, index of the redo vector)."""
    fs = x.prog.fields(ty)
    vs = [i for i, f in enumerate(fs) if x.prog.adt(f[1]) == "std::vec::Vec"]
    if len(vs) != 2 or len(fs) != 2:
        raise Unknown("representation of the undo history")
    m = x.ref(x.run("manager_new"), True)
    a = x.sym("probe", x.argtys("manager_push")[1])
    x.run("manager_push", m, a)
    v = x.ctx.read(m)
    full = [i for i in vs if x.ctx.norm(x.ctx.vlen(x.ctx.vec(x.ctx.field(v, i)))).const() == 1]
    if len(full) != 1:
        raise Unknown("representation of the undo history")
    # the undo vector has its newest action last?
    x.run("manager_push", m, x.sym("probe2", x.argtys("manager_push")[1]))
    u = x.ctx.vec(x.ctx.field(x.ctx.read(m), full[0]))
    if x.ctx.diff(x.sym("probe2", x.argtys("manager_push")[1]), x.ctx.index(u, ONE)) is not None:
        raise Unknown("representation of the undo history")
    return full[0], [i for i in vs if i != full[0]][0]


def concrete(x, a, edits):
    """Give a recorded action a known number of edits (for code that walks through them)."""
    ce = x.ctx.field(a, 0, variant=x.ctx.variant(a))
    x.assume(x.eq(x.ctx.vlen(x.ctx.vec(x.ctx.get(ce, "edits"))), edits))
    return a


def inverse_of(x, a):
    return x.run("undo_action_inverse", x.ref(a))


def opaque_inverse(x):
    """The inverse of one recorded action is U02's business; here it is an arbitrary function of the action."""
    fids = callees(x, "undo_action_inverse")
    if len(fids) == 1:
        x.it.opaque[fids[0]] = lambda it, args, call: App("inverse", call.rty, (it.ctx.read(it.deref(args[0])),))


def callees(x, root):
    """Instances the body of a root calls directly."""
    out = []
    for bb in x.prog.fns[x.root(root)]["body"]["blocks"]:
        k = bb["terminator"]["kind"]
        if isinstance(k, dict) and "Call" in k:
            t = x.prog.t(bb["terminator"]["fty"]) if "fty" in bb["terminator"] else x.prog.t(k["Call"]["fty"])
            if t.get("inst") is not None:
                out.append(t["inst"])
    return out


def any_history(op):
    """One operation on an arbitrary history."""
    def ob(x):
        opaque_inverse(x)
        ty = x.to(x.argtys(op)[0])
        m = x.sym("history", ty)
        u, r = stacks(x, ty)
        uv, rv = x.ctx.vec(x.ctx.field(m, u)), x.ctx.vec(x.ctx.field(m, r))
        nu, nr = x.ctx.vlen(uv), x.ctx.vlen(rv)
        got = x.ref(m, True)

        def after(us, rs, what):
            fs = [None, None]
            fs[u], fs[r] = us, rs
            x.need(x.ctx.read(got), Agg(ty, 0, fs), "the history after " + what)
        if op == "manager_push":
            a = x.sym("action", x.argtys(op)[1])
            x.run(op, got, a)
            after(VecV(uv.segs + (Elem(Cell(a)),), uv.ety), VecV((), rv.ety), "recording an action")
        elif op == "manager_undo":
            some = x.decide(x.ge(nu, 1))
            res = option(x, x.run(op, got))
            if some != (res is not None):
                x.fail("undoing hands out an action exactly if one is recorded")
            if some:
                a = x.ctx.index(uv, nu - 1)
                x.need(res, inverse_of(x, a), "the action handed out by undoing")
                after(x.ctx.slice(uv, ZERO, nu - 1), VecV(rv.segs + (Elem(Cell(a)),), rv.ety), "undoing")
            else:
                after(uv, rv, "undoing nothing")
        elif op == "manager_redo":
            some = x.decide(x.ge(nr, 1))
            res = option(x, x.run(op, got))
            if some != (res is not None):
                x.fail("redoing hands out an action exactly if one was undone")
            if some:
                a = x.ctx.index(rv, nr - 1)
                x.need(res, a, "the action handed out by redoing")
                after(VecV(uv.segs + (Elem(Cell(a)),), uv.ety), x.ctx.slice(rv, ZERO, nr - 1), "redoing")
            else:
                after(uv, rv, "redoing nothing")
        else:
            n = nu if op == "manager_can_undo" else nr
            x.need(x.run(op, x.ref(m)), x.decide(x.ge(n, 1)), "whether there is something to %s" % op.split("_")[-1])
    return ob


def fresh_history(ops, start="manager_new"):
    """A sequence of operations from the empty history, observed only through the public functions."""
    def ob(x):
        opaque_inverse(x)
        m = x.ref(x.run(start), True)
        aty = x.argtys("manager_push")[1]
        undo, redo = [], []
        for k, op in enumerate(ops):
            if op == "manager_push":
                a = x.sym("action%d" % k, aty)
                x.run(op, m, a)
                undo.append(a)
                redo = []
            elif op == "manager_undo":
                res = option(x, x.run(op, m))
                if (res is not None) != bool(undo):
                    x.fail("undoing hands out an action exactly if one is recorded (step %d)" % (k + 1))
                if undo:
                    a = undo.pop()
                    redo.append(a)
                    x.need(res, inverse_of(x, a), "the action handed out by undoing (step %d)" % (k + 1))
            else:
                res = option(x, x.run(op, m))
                if (res is not None) != bool(redo):
                    x.fail("redoing hands out an action exactly if one was undone (step %d)" % (k + 1))
                if redo:
                    a = redo.pop()
                    undo.append(a)
                    x.need(res, a, "the action handed out by redoing (step %d)" % (k + 1))
            x.need(x.run("manager_can_undo", m), bool(undo), "whether there is something to undo (step %d)" % (k + 1))
            x.need(x.run("manager_can_redo", m), bool(redo), "whether there is something to redo (step %d)" % (k + 1))
    return ob


def all_histories(first, n):
    """All sequences of n operations that begin with `first`."""
    def ob(x):
        rest = []
        for i in range(n - len(first)):
            rest.append(x.ctx.choose(list(OPS)))
        fresh_history(tuple(first) + tuple(rest))(x)
    return ob


def u01(tier):
    out = [Ob("arbitrary history: " + op, any_history(op)) for op in
           ("manager_push", "manager_undo", "manager_redo", "manager_can_undo", "manager_can_redo")]
    n = 8 if tier == "thorough" else 6
    for a in itertools.product(OPS, repeat=2):
        out.append(Ob("every history of %d operations beginning with %s, %s" % (n, OPS[a[0]], OPS[a[1]]), all_histories(a, n),
                      budget=200, max_paths=3 ** n))
    out.append(Ob("the default history is empty", fresh_history(("manager_undo", "manager_redo", "manager_push", "manager_undo"), "manager_default")))
    return out


# ---- U02 ------------------------------------------------------------------------------------------
def opaque_edit_inverse(x):
    """The inverse of one edit is E03's business."""
    fids = callees(x, "edit_inverse")
    if len(fids) == 1:
        x.it.opaque[fids[0]] = lambda it, args, call: App("inverse", call.rty, (it.ctx.read(it.deref(args[0])),))


def action_inverse_ob(root, k, twice=False):
    def ob(x):
        if not twice:
            opaque_edit_inverse(x)
        a = x.sym("action", x.to(x.argtys(root)[0]))
        wrap = None
        ce = a
        if x.prog.is_enum(a.ty):
            set_variant(x, a, "CaretEdit")
            wrap = x.prog.variant_index(a.ty, "CaretEdit")
            ce = x.ctx.field(a, 0, variant=wrap)
        ev = x.ctx.vec(x.ctx.get(ce, "edits"))
        n = x.ctx.vlen(ev)
        if k is not None:
            x.assume(x.eq(n, k))
        got = x.run(root, x.ref(a))
        if twice:
            x.need(x.run(root, x.ref(got)), a, "the inverse of the inverse")
            return
        if k is not None:
            inv = VecV([Elem(Cell(x.run("edit_inverse", x.ref(x.ctx.index(ev, x.p(k - 1 - i)))))) for i in range(k)], ev.ety)
        else:
            bv = atom_id(("bv", 3))
            e = App("inverse", ev.ety, (x.ctx.elem_at(ev.segs[0], n - 1 - P.a(bv)),))
            inv = VecV((Rep(n, bv, (((), (Elem(Cell(e)),)),)),), ev.ety)
        want = mk_like(x, ce, caret_before=x.ctx.get(ce, "caret_after"), caret_after=x.ctx.get(ce, "caret_before"), edits=inv)
        if wrap is not None:
            want = Agg(a.ty, wrap, (want,))
        x.need(got, want, "the inverse of an action")
    return ob


def wrap_ob(x):
    a = x.sym("edit", x.argtys("caret_edit_into_action")[0])
    got = x.run("caret_edit_into_action", a)
    if not x.ctx.is_variant(got, "CaretEdit"):
        x.fail("a recorded caret edit of another kind")
    x.need(x.ctx.vget(got, "CaretEdit", "0"), a, "the recorded caret edit")


def empty_ob(x):
    a = x.sym("edit", x.to(x.argtys("caret_edit_is_empty")[0]))
    n = x.ctx.vlen(x.ctx.vec(x.ctx.get(a, "edits")))
    x.need(x.run("caret_edit_is_empty", x.ref(a)), x.decide(x.eq(n, 0)), "whether an action changes nothing")


def u02(tier):
    out = []
    for root in ("caret_edit_inverse", "undo_action_inverse"):
        out.append(Ob("%s, any number of edits" % root, action_inverse_ob(root, None)))
        for k in range(7 if tier == "thorough" else 4):
            out.append(Ob("%s, %d edits" % (root, k), action_inverse_ob(root, k), unroll=k + 2))
        for k in range(4 if tier == "thorough" else 3):
            out.append(Ob("%s twice, %d edits" % (root, k), action_inverse_ob(root, k, True), unroll=k + 2))
    out += [Ob("recording a caret edit", wrap_ob), Ob("an action without edits", empty_ob)]
    return out
