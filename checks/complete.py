"""A01, A02: completions."""
from .base import *
from .editor import Editor, opaque_matches
from .history import callees
from .selection import focus_row, focus_path, off_val


def text(x, n, name, ascii=True):
    """n arbitrary characters."""
    out = []
    for i in range(n):
        c = x.ctx.mk(x.prog.char, ("in", "%s%d" % (name, i)))
        if ascii:
            x.assume(x.ge(127, c))
        out.append(c)
    return out


def string(x, cs):
    return VecV([Elem(Cell(c)) for c in cs], x.prog.char)


def bytes_of(x, cs):
    from engine.models import char_width
    return sum(char_width(x.it, c) for c in cs)


def row_of(x, ety, kinds, ascii=True):
    """A row of elements; kinds: number of characters of each symbol, None for a container."""
    out, texts = [], []
    for i, k in enumerate(kinds):
        v = x.sym("e%d" % i, ety)
        if k is None:
            vi = x.prog.variant_index(ety, "Container")
            x.assume_variant(v, vi) if hasattr(x, "assume_variant") else None
            if x.ctx.variant(v) != vi:
                raise Dead()
            texts.append(None)
        else:
            cs = text(x, k, "e%d_" % i, ascii)
            v = mk_variant(x, ety, "Symbol", string(x, cs))
            texts.append(cs)
        out.append(Elem(Cell(v)))
    return VecV(out, ety), texts


def spelled(x, texts, rule):
    """{number of elements before the caret: characters of the rule they spell}."""
    out, typed = {}, []
    for k, cs in enumerate(reversed(texts), 1):
        if cs is None:
            break
        typed = cs + typed
        if not typed:
            continue
        if len(typed) <= len(rule) and all(x.decide(x.eq(a, b)) for a, b in zip(typed, rule)):
            out[k] = len(typed)
    return out


def matches_ob(n, kinds, ascii=True):
    def run(x):
        a = x.argtys("rule_matches")
        rty = x.to(a[0])
        ety = x.ctx.elem_ty(x.to(a[1]))
        rule_text = text(x, n, "rule", ascii)
        rule = x.run("rule_new", string(x, rule_text), x.sym("result", x.argtys("rule_new")[1]))
        at = x.ctx.choose(list(range(len(kinds) + 1)))
        row, texts = row_of(x, ety, kinds, ascii)
        least = x.int("least")
        got = x.ctx.vec(x.run("rule_matches", x.ref(rule), x.ref(row), x.p(at), least))
        if () in [tuple(t) for t in texts[:at] if t is not None]:
            return                  # symbols without text: only that looking for completions works
        want = spelled(x, texts[:at], rule_text)
        want = {k: m for k, m in want.items() if not x.decide(x.lt(k, least))}
        m = x.ctx.norm(x.ctx.vlen(got)).const()
        if m is None:
            raise Unknown("number of completions")
        seen = {}
        for i in range(m):
            v = x.ctx.index(got, x.p(i))
            k = x.ctx.norm(x.ctx.get(v, "input_match_length")).const()
            if k in seen or k not in want:
                x.fail("a completion is offered once, and only for what stands before the caret")
            seen[k] = v
            x.need(deref(x, x.ctx.get(v, "rule")), rule, "the rule of a completion")
            x.need(x.ctx.get(v, "rule_match_length"), x.p(bytes_of(x, rule_text[:want[k]])), "how much of the rule is spelled")
            x.need(x.run("match_is_complete", x.ref(v)), want[k] == n, "whether the whole rule is spelled")
        if set(seen) != set(want):
            x.fail("a completion is offered whenever the elements before the caret spell the beginning of its rule")
    return run


def a01(tier):
    T = tier == "thorough"
    out = []
    for n in range(1, 5 if T else 4):
        for kinds in ([()] + [(1,) * m for m in range(1, 5 if T else 4)] + [(None, 1), (1, None), (1, None, 1)]):
            out.append(Ob("a rule of %d characters before %s" % (n, kinds), matches_ob(n, kinds), unroll=12, budget=200))
    for n, kinds in ((2, (2,)), (3, (2, 1)), (3, (1, 2)), (2, (0,)), (2, (1, 0)), (2, (0, 1)), (1, (3,))):
        out.append(Ob("a rule of %d characters before symbols of %s" % (n, kinds), matches_ob(n, kinds), unroll=12, budget=200))
    for n, kinds in ((1, (1,)), (2, (1,)), (2, (2,)), (2, (1, 1))):
        out.append(Ob("a rule of %d characters of any alphabet before symbols of %s" % (n, kinds), matches_ob(n, kinds, False), unroll=12, budget=200))
    return out


# ---- A02: completions in the editor ------------------------------------------------------------------
class Asked:
    """What the editor asks about completions, answered arbitrarily."""

    def __init__(self, x, most):
        self.x, self.most, self.calls = x, most, []
        for root, what in (("parser_matches", "all"), ("rule_matches", "one")):
            fids = callees(x, root)
            if len(fids) != 1:
                raise Unknown("who computes completions")
            x.it.opaque[fids[0]] = self.answer(what)

    def answer(self, what):
        def go(it, args, call):
            x = self.x
            row, caret, least = seq_of(x, args[1]), args[2], args[3]
            if not x.decide(x.ge(x.ctx.vlen(row), caret)):
                x.fail("completions are looked for in front of a place inside the elements at hand")
            ety = x.ctx.elem_ty(call.rty)
            out = []
            for _ in range(x.ctx.choose(list(range(self.most[what] + 1)))):
                m = x.sym("match%d_%d" % (len(self.calls), len(out)), ety)
                n = x.ctx.get(m, "input_match_length")
                x.assume(x.ge(caret, n), x.ge(n, least), x.ge(n, 1))
                if what == "one":
                    m = mk_like(x, m, rule=args[0])
                out.append(m)
            self.calls.append((what, deref(x, args[0]), row, caret, list(out)))
            return VecV([Elem(Cell(m)) for m in out], ety)
        return go


def remembered(x, E, e):
    """The place in the editor where the chosen completion is remembered."""
    for i, (n, t) in enumerate(x.prog.fields(E.ty)):
        if (x.prog.adt(t) or "").endswith("::AutocompleteState"):
            for j, (m, u) in enumerate(x.prog.fields(t)):
                if x.prog.is_enum(u) and "AutocompleteRule" in x.prog.text(u):
                    return x.ctx.field(x.ctx.field(e, i), j)
    raise Unknown("where the chosen completion is remembered")


def editor_in(x, root, depth):
    ty = x.to(x.argtys(root)[0])
    e = x.sym("editor", ty)
    E = Editor(x, ty)
    tree, caret = E.get(x, e, "tree"), E.get(x, e, "caret")
    a = x.ctx.get(caret, "start_position")
    e = E.with_(x, e, caret=mk_like(x, caret, end_position=a))
    path, o = x.ctx.get(a, "row_indices"), off(x, x.ctx.get(a, "offset"))
    x.assume(x.eq(path_len(x, path), depth))
    row = walk(x, x.ctx.get(tree, "root"), path, depth)[-1]
    x.assume(x.ge(row_len(x, row), o))
    return E, e, tree, a, path, row, o


def key(x, v):
    """Which of the values at hand this is (no case is split to find out)."""
    if isinstance(v, P):
        return repr(x.ctx.norm(v))
    try:
        return repr(x.ctx.get(v, "parser"))
    except Missing:
        return repr(v)


def same(x, a, b):
    return key(x, a) == key(x, b)


def offered_ob(depth, most):
    def ob(x):
        root = "editor_offered"
        E, e, tree, place, path, row, o = editor_in(x, root, depth)
        asked = Asked(x, {"all": most, "one": 0})
        equal = SameRule(x)
        ref = x.ref(e, True)
        got = option(x, x.run(root, ref))
        if len(asked.calls) != 1:
            x.fail("completions are looked for once")
        what, _, text_, at, found = asked.calls[0]
        x.need(text_, row_vec(x, row), "where completions are looked for")
        x.need(at, o, "the place completions are looked for")
        if not found:
            if got is not None:
                x.fail("without completions nothing is offered")
            if not x.ctx.is_variant(remembered(x, E, x.ctx.read(ref)), "None"):
                x.fail("a completion that is no longer offered does not stay chosen")
            return
        if got is None:
            x.fail("the completions found are offered")
        shown = x.ctx.vec(x.ctx.field(got, 1))
        x.need(x.ctx.vlen(shown), x.p(len(found)), "the number of completions offered")
        left = list(found)
        last = None
        chosen = x.ctx.norm(x.ctx.field(got, 0)).const()
        if chosen is None or chosen >= len(found):
            x.fail("one of the completions offered is chosen")
        for i in range(len(found)):
            t = x.ctx.index(shown, x.p(i))
            n = x.ctx.field(t, 1)
            if last is not None and x.decide(x.lt(n, last)):
                x.fail("completions are offered in the order of how much of them is spelled")
            last = n
            hit = [m for m in left if same(x, x.ctx.get(m, "rule_match_length"), n) and same(x, x.ctx.get(m, "input_match_length"), x.ctx.field(t, 2))
                   and same(x, deref(x, x.ctx.get(m, "rule")), x.ctx.field(t, 0))]
            if not hit:
                x.fail("what is offered are the completions found")
            left.remove(hit[0])
        x.need(x.ctx.field(got, 2), place, "the place of the completions offered")
        now = remembered(x, E, x.ctx.read(ref))
        if x.ctx.is_variant(now, "None"):
            x.fail("the chosen completion is remembered")
        x.need(x.ctx.vget(now, "Some", "0"), x.ctx.field(x.ctx.index(shown, x.p(chosen)), 0), "the completion remembered as chosen")
        before = remembered(x, E, e)
        if not x.ctx.is_variant(before, "None"):
            old = x.ctx.vget(before, "Some", "0")
            first = next((i for i in range(len(found)) if equal(x.ctx.field(x.ctx.index(shown, x.p(i)), 0), old)), 0)
            x.need(x.ctx.field(got, 0), x.p(first), "the chosen completion stays chosen while it is offered, otherwise it is the first")
        else:
            x.need(x.ctx.field(got, 0), x.p(0), "the completion chosen at first is the first")
    return ob


class SameRule:
    """Comparing two rules is taken as one fact, true of a rule and itself."""

    def __init__(self, x):
        self.x, self.known = x, []
        fids = [f["id"] for f in x.prog.fns if f and f["def"].endswith("::eq") and "AutocompleteRule as " in f["def"]]
        if len(fids) != 1:
            raise Unknown("how rules are compared")
        x.it.opaque[fids[0]] = lambda it, args, call: self(deref(x, args[0]), deref(x, args[1]))

    def __call__(self, a, b):
        if same(self.x, a, b):
            return True
        for p, q, r in self.known:
            if same(self.x, a, p) and same(self.x, b, q) or same(self.x, a, q) and same(self.x, b, p):
                return r
        r = self.x.ctx.choose([False, True])
        self.known.append((a, b, r))
        return r


def looked(x, asked):
    if not asked.calls:
        x.fail("completions are looked for in front of the caret")
    return asked.calls[0][4]


def replaced(x, tree, path, row, lo, n, values, like):
    """The formula in which n elements of a row give way to others."""
    from .selection import mk_edit, off_val
    from .editor import after_edits
    ety = x.ctx.elem_ty(x.to(x.argtys("tree_apply_edits")[1]))
    o = off_val(x, like, lo)
    es = [mk_edit(x, ety, "Delete", path, o, x.ctx.slice(row_vec(x, row), lo, n)), mk_edit(x, ety, "Insert", path, o, values)]
    return after_edits(x, tree, VecV([Elem(Cell(v)) for v in es], ety))


def accept_ob(depth, most):
    def ob(x):
        root = "editor_finish_autocomplete"
        E, e, tree, place, path, row, o = editor_in(x, root, depth)
        asked = Asked(x, {"all": most, "one": 0})
        SameRule(x)
        ref = x.ref(e, True)
        e = x.ctx.copyval(e)
        if most == 1:
            got = option(x, x.run(root, ref, True))
            found = looked(x, asked)
            if (got is None) != (not found):
                x.fail("accepting works exactly if there is a completion")
            now = x.ctx.read(ref)
            if not found:
                x.need(E.get(x, now, "tree"), tree, "the formula when there is nothing to accept")
                x.need(E.get(x, now, "caret"), E.get(x, e, "caret"), "the caret when there is nothing to accept")
                return
            n = x.ctx.get(found[0], "input_match_length")
            values = x.ctx.vec(x.ctx.get(deref(x, x.ctx.get(found[0], "rule")), "result"))
            x.need(E.get(x, now, "tree"), replaced(x, tree, path, row, x.ctx.norm(o - n), n, values, x.ctx.get(place, "offset").ty), "the formula after accepting")
            for end in ("start_position", "end_position"):
                p = x.ctx.get(E.get(x, now, "caret"), end)
                x.need(x.ctx.get(p, "row_indices"), path, "the row of the caret after accepting")
                q = off(x, x.ctx.get(p, "offset"))
                if not same(x, q, x.ctx.norm(o - n)):
                    x.need(q, x.ctx.norm(o - n + x.ctx.vlen(values)), "the place of the caret after accepting, at an end of the new elements")
            return
        x.run(root, ref, False)
        now = x.ctx.read(ref)
        x.need(E.get(x, now, "tree"), tree, "the formula after closing the completions")
        x.need(E.get(x, now, "caret"), E.get(x, e, "caret"), "the caret after closing the completions")
    return ob


def step_ob(way):
    """Choosing the next or previous of any number of completions."""
    def ob(x):
        root = "results_moved"
        tys = x.argtys(root)
        at = x.int("chosen")
        found = x.sym("found", tys[1])
        n = x.ctx.vlen(x.ctx.vec(found))
        x.assume(x.lt(at, n))
        want = x.p(0) if way == "Up" and x.decide(x.eq(at, 0)) else at if way == "Down" and x.decide(x.eq(at, n - 1)) else at + (1 if way == "Down" else -1)
        got = x.run(root, at, x.ctx.copyval(found), x.sym("place", tys[2]), mk_variant(x, tys[3], way))
        x.need(x.ctx.field(got, 0), x.ctx.norm(want), "the completion chosen after moving %s" % way.lower())
        x.need(x.ctx.field(got, 1), x.ctx.get(x.ctx.index(x.ctx.vec(found), x.ctx.norm(want)), "rule_match_length"), "the completion reported as chosen after moving %s" % way.lower())
    return ob


def moved_ob(depth, way, most):
    """The completion that is remembered after moving through those offered."""
    def ob(x):
        root = "editor_move_in_autocomplete"
        E, e, tree, place, path, row, o = editor_in(x, root, depth)
        asked = Asked(x, {"all": most, "one": 0})
        equal = SameRule(x)
        ref = x.ref(e, True)
        e = x.ctx.copyval(e)
        got = option(x, x.run(root, ref, mk_variant(x, x.argtys(root)[1], way)))
        found = looked(x, asked)
        if (got is None) != (not found):
            x.fail("moving through the completions works exactly if there are any")
        now = x.ctx.read(ref)
        x.need(E.get(x, now, "tree"), tree, "the formula after moving through the completions")
        x.need(E.get(x, now, "caret"), E.get(x, e, "caret"), "the caret after moving through the completions")
        if not found:
            return
        order = []
        for m in found:
            n = x.ctx.get(m, "rule_match_length")
            k = 0
            while k < len(order) and x.decide(x.lt(order[k][0], n)):
                k += 1
            if k < len(order) and x.decide(x.eq(order[k][0], n)):
                return  # which of two comes first is left open
            order.insert(k, (n, deref(x, x.ctx.get(m, "rule"))))
        before, k = remembered(x, E, e), 0
        if not x.ctx.is_variant(before, "None"):
            old = x.ctx.vget(before, "Some", "0")
            k = next((i for i, (_, r) in enumerate(order) if equal(r, old)), 0)
        k = max(0, k - 1) if way == "Up" else min(len(order) - 1, k + 1)
        after = remembered(x, E, now)
        if x.ctx.is_variant(after, "None") or not same(x, x.ctx.vget(after, "Some", "0"), order[k][1]):
            x.fail("moving %s chooses the %s completion, if there is one" % (way.lower(), "previous" if way == "Up" else "next"))
    return ob


def moves_in_row(x, op):
    """Where the caret moves and what deleting does is the business of M01 and M02; here it stays or moves within its row."""
    fids = callees(x, "move_caret_range" if op == "move_caret" else "do_remove_at_caret")
    if len(fids) != 1:
        raise Unknown("who moves the caret")
    went = []

    def go(it, args, call):
        if went:
            raise Unknown("the caret moves more than once")
        if x.ctx.choose(["stays", "moves"]) == "stays":
            went.append(None)
            return mk_variant(x, call.rty, "None")
        v = args[1]
        while isinstance(v, Ref):
            v = it.ctx.read(it.deref(v))
        f, to = x.ctx.get(v, "row_focus"), x.int("to")
        x.assume(x.ge(row_len(x, focus_row(x, f)), to))
        went.append(to)
        ty = x.prog.fields(call.rty, x.prog.variant_index(call.rty, "Some"))[0][1]
        at = off_val(x, x.ctx.get(v, "start").ty, to)
        if op == "move_caret":
            return mk_variant(x, call.rty, "Some", mk_struct(x, ty, row_focus=f, offset=at))
        evt, pty = [t for _, t in x.prog.fields(ty)]
        return mk_variant(x, call.rty, "Some", Agg(ty, 0, (VecV((), x.ctx.elem_ty(evt)), mk_struct(x, pty, row_indices=focus_path(x, f), offset=at))))
    x.it.opaque[fids[0]] = go
    return went


def autocorrect_ob(depth, op, to):
    def ob(x):
        from .selection import document_order
        root = "editor_" + op
        E, e, tree, place, path, row, o = editor_in(x, root, depth)
        asked = Asked(x, {"all": 1, "one": 1})
        SameRule(x)
        ref = x.ref(e, True)
        e = x.ctx.copyval(e)
        tys = x.argtys(root)
        if op == "start_selection":
            p = x.sym("place", tys[1])
            pp, po = x.ctx.get(p, "row_indices"), off(x, x.ctx.get(p, "offset"))
            x.assume(x.eq(path_len(x, pp), to))
            x.assume(x.ge(row_len(x, walk(x, x.ctx.get(tree, "root"), pp, to)[-1]), po))
            args = [p, x.sym("mode", tys[2])]
        elif op in ("move_caret", "remove_at_caret"):
            goes = moves_in_row(x, op)
            args = [x.sym("way", tys[1]), mk_variant(x, tys[2], "Char")]
        else:
            args = [VecV([Elem(Cell(x.sym("s", x.ctx.elem_ty(tys[1]))))], x.ctx.elem_ty(tys[1]))]
        x.run(root, ref, *args)
        first = looked(x, asked)
        again = [c for c in asked.calls if c[0] == "one"]
        if not first:
            if again:
                x.fail("nothing is corrected where no completion was offered")
            return
        m = first[0]
        n = x.ctx.get(m, "input_match_length")
        whole = x.decide(x.eq(x.ctx.get(m, "rule_match_length"), x.run("rule_length", x.ctx.get(m, "rule"))))
        if op == "start_selection":
            left, right = document_order(x, path, x.ctx.norm(o - n), pp, po), document_order(x, pp, po, path, o)
            inside = left <= 0 and right <= 0
            now_tree = tree
        elif op in ("move_caret", "remove_at_caret"):
            to_ = goes[0] if goes and goes[0] is not None else o
            inside = x.decide(x.ge(to_, x.ctx.norm(o - n))) and x.decide(x.ge(o, to_))
            now_tree = tree
        else:
            inside = True           # what is typed directly behind belongs to it (R01)
            ety = x.ctx.elem_ty(x.argtys("do_insert_at_range")[1])
            new = VecV([Elem(Cell(mk_variant(x, ety, "Symbol", x.ctx.index(x.ctx.vec(args[0]), ZERO))))], ety)
            now_tree = replaced(x, tree, path, row, o, ZERO, new, x.ctx.get(place, "offset").ty)
        if not whole or inside:
            if again:
                x.fail("only a completely spelled completion that the caret has left is applied")
            x.need(E.get(x, x.ctx.read(ref), "tree"), now_tree, "the formula when no completion is applied")
            return
        if len(again) != 1:
            x.fail("whether a completion is still spelled is looked up when the caret has left it")
        _, rule, text_, at, found = again[0]
        x.need(rule, deref(x, x.ctx.get(m, "rule")), "the completion looked up again")
        x.need(x.ctx.slice(text_, ZERO, at), x.ctx.slice(row_vec(x, row), x.ctx.norm(o - n), n), "the elements that must still spell the completion")
        applies = [f for f in found if x.decide(x.eq(x.ctx.get(f, "rule_match_length"), x.run("rule_length", x.ctx.get(m, "rule"))))]
        want = now_tree
        if applies:
            values = x.ctx.vec(x.ctx.get(rule, "result"))
            row2 = walk(x, x.ctx.get(now_tree, "root"), path, depth)[-1]
            want = replaced(x, now_tree, path, row2, x.ctx.norm(o - n), n, values, x.ctx.get(place, "offset").ty)
        x.need(E.get(x, x.ctx.read(ref), "tree"), want, "the formula after a completion is%s applied" % ("" if applies else " not"))
    return ob


def a02(tier):
    T = tier == "thorough"
    ds = range(3 if T else 2)
    out = [Ob("offered, caret %d steps down, up to %d completions" % (d, k), offered_ob(d, k), unroll=8, budget=120) for d in ds for k in range(4 if T else 3)]
    out += [Ob("%s, caret %d steps down" % (w, d), accept_ob(d, k), unroll=6, budget=120) for d in ds for w, k in (("accepted", 1), ("closed", 2))]
    out += [Ob("%s among any number of completions" % w, step_ob(w), unroll=3) for w in ("Up", "Down")]
    out += [Ob("moved %s, caret %d steps down, up to %d completions" % (w, d, k), moved_ob(d, w, k), unroll=8, budget=120) for w in ("Up", "Down") for d in ds for k in range(4 if T else 3)]
    out += [Ob("applied by itself when the caret goes elsewhere, %d and %d steps down" % (d, t), autocorrect_ob(d, "start_selection", t), unroll=6, budget=200) for d in ds for t in ds]
    out += [Ob("applied by itself after %s, caret %d steps down" % (w, d), autocorrect_ob(d, op, 0), unroll=6, budget=200) for d in ds for w, op in (("moving", "move_caret"), ("deleting", "remove_at_caret"))]
    out += [Ob("applied by itself when typing on, caret %d steps down" % d, autocorrect_ob(d, "insert_at_caret", 0), unroll=6, budget=200) for d in ds]
    return out
