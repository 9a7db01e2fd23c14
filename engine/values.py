"""Abstract values.

Every value is immutable except Cell, the abstract memory location.  `Sym` stands for "whatever the
input holds at this place" and is only taken apart when the code does.
Terms (nested tuples) name places of the input:
  ("in", name)                 an argument of the analysed entry point
  ("f", t, field)              field of a struct        ("vf", t, variant, field)  of an enum variant
  ("d", t)                     what a reference / box points to
  ("at", t, P)                 element of a sequence
  ("rec", t0, tmpl, P)         P-fold application of the path `tmpl` (one hole) to t0
"""
from .poly import P, ZERO, ONE, term_name


class Cell:
    __slots__ = ("v", "n")
    count = 0

    def __init__(self, v):
        self.v = v
        Cell.count += 1
        self.n = Cell.count

    def __repr__(self):
        return "Cell%d" % self.n


class Sym:
    __slots__ = ("ty", "term")

    def __init__(self, ty, term):
        self.ty = ty
        self.term = term

    def __repr__(self):
        return term_name(self.term)


class Agg:
    __slots__ = ("ty", "variant", "fields")

    def __init__(self, ty, variant, fields):
        self.ty = ty
        self.variant = variant
        self.fields = tuple(fields)

    def __repr__(self):
        return "{%s:%s}" % (self.variant, ",".join(map(repr, self.fields)))


class Ref:
    """A reference or raw pointer to a place; `rng` = (lo, len) for slices."""
    __slots__ = ("cell", "path", "rng", "mut")

    def __init__(self, cell, path=(), rng=None, mut=False):
        self.cell = cell
        self.path = path
        self.rng = rng
        self.mut = mut

    def __repr__(self):
        return "&%s%s%s" % (self.cell, "".join(".%s" % p[0] for p in self.path), "" if self.rng is None else "[%r;%r]" % self.rng)


class BoxV:
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return "Box(%r)" % (self.cell.v,)


class RcV(BoxV):
    """A shared box (Rc, Arc or a Weak to one): copying it shares the cell."""
    __slots__ = ()

    def __repr__(self):
        return "Rc(%s)" % (self.cell,)


class C:
    """A boolean condition: kind ge (p >= 0), eq, ne."""
    __slots__ = ("kind", "p")

    def __init__(self, kind, p):
        self.kind = kind
        self.p = p

    def neg(self):
        if self.kind == "ge":
            return C("ge", -self.p - 1)
        return C("ne" if self.kind == "eq" else "eq", self.p)

    def __repr__(self):
        return "%r %s 0" % (self.p, {"ge": ">=", "eq": "==", "ne": "!="}[self.kind])


class Not:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


# ---- sequences ------------------------------------------------------------------------------
class Elem:
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return "<%r>" % (self.cell.v,)


class Sl:
    """base[lo .. lo+len] of an input sequence."""
    __slots__ = ("base", "ety", "lo", "len")

    def __init__(self, base, ety, lo, ln):
        self.base = base
        self.ety = ety
        self.lo = lo
        self.len = ln

    def __repr__(self):
        return "%s[%r..+%r]" % (term_name(self.base), self.lo, self.len)


class Rep:
    """Concatenation for j = 0 .. count-1 of one of `branches` = [(conditions, segs)], which mention
    the bound atom `bv`."""
    __slots__ = ("count", "bv", "branches")

    def __init__(self, count, bv, branches):
        self.count = count
        self.bv = bv
        self.branches = branches

    def __repr__(self):
        return "Rep(%r: %r)" % (self.count, self.branches)


class Pre:
    """Opaque prefix (contents of an accumulator at the start of a loop iteration)."""
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return "Pre%r" % (self.id,)


class VecV:
    __slots__ = ("segs", "ety")

    def __init__(self, segs, ety):
        self.segs = tuple(segs)
        self.ety = ety

    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.segs))


class SliceIter:
    """std::slice::Iter / IterMut over the sequence stored at (cell, path)."""
    __slots__ = ("ty", "ref", "lo", "len", "mut")

    def __init__(self, ty, ref, lo, ln, mut=False):
        self.ty = ty
        self.ref = ref
        self.lo = lo
        self.len = ln
        self.mut = mut

    def __repr__(self):
        return "Iter(%r,%r,%r)" % (self.ref, self.lo, self.len)


class OwnIter:
    """std::vec::IntoIter, str::Chars, array::IntoIter: the elements still to come."""
    __slots__ = ("ty", "vec")

    def __init__(self, ty, vec):
        self.ty = ty
        self.vec = vec

    def __repr__(self):
        return "Own(%r)" % (self.vec,)


class Str:
    """A string with known text."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class Hole:
    """The place `t0` of the input in which the sub-place reached by `count` steps of `tmpl` has been
    replaced by the contents of `cell`."""
    __slots__ = ("orig", "tmpl", "count", "cell")

    def __init__(self, orig, tmpl, count, cell):
        self.orig = orig
        self.tmpl = tmpl
        self.count = count
        self.cell = cell

    def __repr__(self):
        return "%r with [walk^%r := %r]" % (self.orig, self.count, self.cell.v)


class Disp:
    """Output of Display for a value (one opaque chunk)."""
    __slots__ = ("ty", "v")

    def __init__(self, ty, v):
        self.ty = ty
        self.v = v

    def __repr__(self):
        return "{%r}" % (self.v,)


class App:
    """Result of a function whose meaning is not looked into (equal functions of equal arguments are equal)."""
    __slots__ = ("fn", "ty", "args")

    def __init__(self, fn, ty, args):
        self.fn = fn
        self.ty = ty
        self.args = tuple(args)

    def __repr__(self):
        return "%s(%s)" % (self.fn, ", ".join(map(repr, self.args)))


class Opaque:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "?%s" % self.why


class Uninit:
    def __repr__(self):
        return "uninit"


UNINIT = Uninit()


class Fn:
    """Zero-sized function item or fn pointer."""
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


# ---- control ---------------------------------------------------------------------------------
class Panic(Exception):
    def __init__(self, kind, where):
        self.kind = kind
        self.where = where


class Unknown(Exception):
    pass


class Dead(Exception):
    """Infeasible path."""


class Missing(Exception):
    """An anchor the check needs is not there."""


def is_term_value(v):
    return isinstance(v, Sym)
