"""Relations between abstract values: common prefixes of sequences, equality, differences."""
from .poly import P, ZERO, ONE, ATOMS, atom_id, term_name
from .values import *


class Diff:
    """Two values that differ in the current abstract state: where, what was expected, what was got."""

    def __init__(self, path, want, got):
        self.path = path
        self.want = want
        self.got = got

    def __str__(self):
        def s(x):
            r = repr(x)
            return r if len(r) < 300 else r[:300] + "..."
        return "%s: expected %s, got %s" % (self.path or "value", s(self.want), s(self.got))


def term_pairs(a, b):
    """Polynomial positions in which two terms of the same shape differ, or None."""
    if isinstance(a, P) and isinstance(b, P):
        return [] if a == b else [(a, b)]
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        out = []
        for x, y in zip(a, b):
            r = term_pairs(x, y)
            if r is None:
                return None
            out += r
        return out
    return [] if a == b and type(a) is type(b) else None


class Rel:
    # ---- common prefixes ------------------------------------------------------------------------
    def lcp_atom(self, a, b):
        """Length of the longest common prefix of two input sequence suffixes (Sl values)."""
        x, y = (self.cterm(a.base), self.norm(a.lo)), (self.cterm(b.base), self.norm(b.lo))
        kx, ky = (repr(x[0]), x[1].key()), (repr(y[0]), y[1].key())
        if ky < kx:
            x, y = y, x
        L = self.atom(("lcp", ("sfx",) + x, ("sfx",) + y))
        key = ("lcpdone", x, y)
        if key not in self.assumed:
            self.assumed.add(key)
            for t, lo in (x, y):
                n = self.baselen.get(t)
                if n is not None:
                    self.add_ge(n - lo - L)
            self.lcps.append((x[0], x[1], y[0], y[1], self.norm(L)))
        return self.norm(L)

    def common_prefix(self, A, B, ety, eqf=None):
        """Compare two sequences element by element.  Returns (L, state) where state is "both" (same),
        "a" (A is a proper prefix of B), "b", or "diff" (they first differ at L)."""
        A, B = self.norm_segs(A.segs, ety), self.norm_segs(B.segs, ety)
        L = ZERO
        for _ in range(200):
            A = self.drop_empty(A)
            B = self.drop_empty(B)
            if not A or not B:
                if not A and not B:
                    return L, "both", None, None
                return L, ("a" if not A else "b"), None, None
            x, y = A[0], B[0]
            cx, cy = self.seg_len(x).const(), self.seg_len(y).const()
            if isinstance(x, Sl) and isinstance(y, Sl) and (cx is None or cy is None or min(cx, cy) > 6):
                xb, yb = self.cterm(x.base), self.cterm(y.base)
                if xb == yb and self.same_int(x.lo, y.lo):
                    n = x.len if self.decide(C("ge", y.len - x.len)) else y.len
                    if n.const() == 0:
                        raise Unknown("empty common prefix")
                    _, A = self.split(A, n)
                    _, B = self.split(B, n)
                    L = self.norm(L + n)
                    continue
                k = self.lcp_atom(x, y)
                n = x.len if self.decide(C("ge", y.len - x.len)) else y.len
                if self.decide(C("ge", k - n)):
                    _, A = self.split(A, n)
                    _, B = self.split(B, n)
                    L = self.norm(L + n)
                    continue
                va, vb = self.elem_at(x, k), self.elem_at(y, k)
                self.assume_differ(va, vb)
                return self.norm(L + k), "diff", va, vb
            if isinstance(x, (Elem, Sl)) and isinstance(y, (Elem, Sl)):
                va, A = self.front(A)
                vb, B = self.front(B)
                if (eqf or self.eq_val)(va, vb):
                    L = self.norm(L + 1)
                    continue
                return L, "diff", va, vb
            raise Unknown("comparison of repetitions")
        raise Unknown("comparison of long sequences")

    def drop_empty(self, segs):
        segs = list(segs)
        while segs:
            if isinstance(segs[0], Elem):
                return segs
            if isinstance(segs[0], Pre):
                raise Unknown("accumulator compared inside its own loop")
            n = self.seg_len(segs[0])
            if self.decide(C("ge", n - 1)):
                return segs
            segs.pop(0)
        return segs

    def assume_differ(self, a, b):
        """Record that two values are different (splits into the field that differs first)."""
        if isinstance(a, P):
            self.assume(C("ne", a - b))
            return
        if isinstance(a, (Sym, Agg)):
            t = self.prog.t(a.ty)
            if t["k"] == "tuple" or t["k"] == "adt" and t["kind"] == "Struct":
                fs = self.prog.fields(a.ty)
                if fs and all(self.prog.t(f[1])["k"] in ("uint", "char") for f in fs):
                    opts = []
                    for i in range(len(fs)):
                        opts.append(i)
                    c = self.choose(opts)
                    for i in range(c):
                        self.assume(C("eq", self.field(a, i) - self.field(b, i)))
                    self.assume(C("ne", self.field(a, c) - self.field(b, c)))
                    return
        self.neqs.append((a, b))

    def seq_eq(self, A, B, ety):
        if A is B:
            return True
        return self.common_prefix(A, B, ety)[1] == "both"

    # ---- equality -------------------------------------------------------------------------------
    def eq_val(self, a, b, depth=0):
        """Structural equality of two values; decides whatever it depends on."""
        return self.diff(a, b) is None

    def as_bool(self, c):
        return self.decide(c)

    def pointee(self, v):
        """(value, is slice) a reference or box points to."""
        if isinstance(v, BoxV):
            return v.cell.v
        if isinstance(v, Ref):
            x = self.read(v)
            if v.rng is not None:
                x = self.slice(self.vec(x), v.rng[0], v.rng[1])
            return x
        if isinstance(v, Sym):
            return self.deref_cell(v).v
        raise Unknown("pointee of %r" % (v,))

    def is_ptr(self, v):
        if isinstance(v, (Ref, BoxV)):
            return True
        if isinstance(v, Sym):
            t = self.prog.t(v.ty)
            return t["k"] in ("ref", "ptr") or t["k"] == "adt" and bool(t.get("box"))
        return False

    def is_seq(self, v):
        if isinstance(v, (VecV, OwnIter)):
            return True
        if isinstance(v, Sym):
            t = self.prog.t(v.ty)
            return t["k"] in ("array", "slice", "str") or t["k"] == "adt" and (
                t["name"].endswith("vec::Vec") or t["name"].endswith("string::String"))
        return False

    def diff(self, want, got, path="", depth=0):
        """None if the two values are equal in this disjunct, otherwise a Diff."""
        if want is got:
            return None
        if depth > 40:
            raise Unknown("values nested too deeply")
        if isinstance(want, (bool, C, Not)) or isinstance(got, (bool, C, Not)):
            if not isinstance(want, (bool, C, Not)) or not isinstance(got, (bool, C, Not)):
                return Diff(path, want, got)
            if repr(want) == repr(got):
                return None
            w, g = self.decide(want), self.decide(got)
            return None if w == g else Diff(path, w, g)
        if isinstance(want, P) or isinstance(got, P):
            if not isinstance(want, P) or not isinstance(got, P):
                raise Unknown("comparing %r with %r" % (want, got))
            d = self.norm(want - got)
            if d.const() == 0:
                return None
            return None if self.decide(C("eq", d)) else Diff(path, want, got)
        if isinstance(want, Hole) or isinstance(got, Hole):
            return self.diff_hole(want, got, path, depth)
        if isinstance(want, Disp) or isinstance(got, Disp):
            if not isinstance(want, Disp) or not isinstance(got, Disp):
                return Diff(path, want, got)
            if want.ty != got.ty:
                return Diff(path, want, got)
            return self.diff(want.v, got.v, path, depth + 1)
        if isinstance(want, App) and isinstance(got, App) and want.fn == got.fn and len(want.args) == len(got.args):
            for i, (w, g) in enumerate(zip(want.args, got.args)):
                d = self.diff(w, g, "%s.%s(%d)" % (path, want.fn, i), depth + 1)
                if d is not None:
                    return d
            return None
        if isinstance(want, (Opaque, Partial_t)) or isinstance(got, (Opaque, Partial_t)) or want is UNINIT or got is UNINIT:
            raise Unknown("comparing %r with %r" % (want, got))
        if self.is_ptr(want) and self.is_ptr(got):
            return self.diff(self.pointee(want), self.pointee(got), path, depth + 1)
        if self.is_seq(want) and self.is_seq(got):
            a = want.vec if isinstance(want, OwnIter) else self.vec(want)
            b = got.vec if isinstance(got, OwnIter) else self.vec(got)
            return self.diff_seq(a, b, path, depth + 1)
        if isinstance(want, Fn) and isinstance(got, Fn):
            return None
        if isinstance(want, Sym) and isinstance(got, Sym):
            a, b = self.cterm(want.term), self.cterm(got.term)
            if a == b:
                return None
            if a[0] == "rec" and a in self.recs or b[0] == "rec" and b in self.recs:
                ra = self.resolve_rec(want)
                rb = self.resolve_rec(got)
                if not (ra is want and rb is got):
                    return self.diff(ra, rb, path, depth + 1)
            ps = term_pairs(a, b)
            if ps is not None:
                if all([self.decide(C("eq", x - y)) for x, y in ps]):
                    return None
                if not self.shallow(want.ty):
                    return Diff(path, want, got)
        if isinstance(want, (Sym, Agg)) and isinstance(got, (Sym, Agg)):
            tw, tg = self.prog.t(want.ty), self.prog.t(got.ty)
            if want.ty != got.ty and tw["text"] != tg["text"]:
                raise Unknown("comparing %s with %s" % (tw["text"], tg["text"]))
            if tw["k"] in ("adt", "tuple"):
                if tw["k"] == "adt" and tw["kind"] == "Enum":
                    x, y = self.variant(want), self.variant(got)
                    if x != y:
                        return Diff(path, "%s::%s" % (tw["name"].split("::")[-1], tw["variants"][x]["name"]),
                                    "%s::%s" % (tw["name"].split("::")[-1], tw["variants"][y]["name"]))
                else:
                    x = 0
                for i, (n, _) in enumerate(self.prog.fields(want.ty, x)):
                    d = self.diff(self.field(want, i, variant=x), self.field(got, i, variant=x), "%s.%s" % (path, n), depth + 1)
                    if d is not None:
                        return d
                return None
            if tw["k"] == "closure":
                return None
        raise Unknown("comparing %r with %r" % (want, got))

    def resolve_rec(self, s):
        if s.term[0] == "rec" and s.term in self.recs:
            return self.unrec(s)
        return s

    def shallow(self, ty):
        """Struct of integers only: compared field by field, not by place."""
        t = self.prog.t(ty)
        if t["k"] == "tuple" or t["k"] == "adt" and t["kind"] == "Struct":
            return all(self.prog.t(f[1])["k"] in ("uint", "char", "bool") or self.shallow(f[1]) for f in self.prog.fields(ty))
        return False

    def diff_hole(self, want, got, path, depth):
        if isinstance(want, Hole) and isinstance(got, Hole):
            d = self.diff(want.orig, got.orig, path, depth + 1)
            if d is not None:
                return d
            if want.tmpl == got.tmpl:
                if not self.decide(C("eq", want.count - got.count)):
                    return Diff(path, want, got)
                return self.diff(want.cell.v, got.cell.v, path + ".(walk)", depth + 1)
        if isinstance(want, Hole):
            return self.diff(self.unhole(want), got, path, depth + 1)
        return self.diff(want, self.unhole(got), path, depth + 1)

    def diff_seq(self, A, B, path, depth):
        a, b = self.norm_segs(A.segs, A.ety), self.norm_segs(B.segs, B.ety)
        pos = ZERO
        for _ in range(400):
            # cheap removal of a syntactically equal head
            if a and b and a[0] is b[0]:
                pos = pos + (ONE if isinstance(a[0], Elem) else ZERO)
                a, b = a[1:], b[1:]
                continue
            if a and b and isinstance(a[0], Sl) and isinstance(b[0], Sl) and self.norm(a[0].lo - b[0].lo).const() == 0 \
                    and self.norm(a[0].len - b[0].len).const() == 0 and self.cterm(a[0].base) == self.cterm(b[0].base):
                pos = pos + a[0].len
                a, b = a[1:], b[1:]
                continue
            if a and b and isinstance(a[0], Sl) and isinstance(b[0], Sl) and self.cterm(a[0].base) == self.cterm(b[0].base) \
                    and self.same_int(a[0].lo, b[0].lo):
                # the same stretch of the input as far as the shorter one reaches
                n = a[0].len if self.decide(C("ge", b[0].len - a[0].len)) else b[0].len
                pos = pos + n
                a, b = self.cut(a, n), self.cut(b, n)
                continue
            a = self.drop_empty_for_diff(a)
            b = self.drop_empty_for_diff(b)
            if not a and not b:
                return None
            if not a or not b:
                return Diff(path + "[%r]" % pos, VecV(a, A.ety), VecV(b, B.ety))
            x, y = a[0], b[0]
            if isinstance(x, Pre) or isinstance(y, Pre):
                if isinstance(x, Pre) and isinstance(y, Pre) and x.id == y.id:
                    a, b = a[1:], b[1:]
                    continue
                raise Unknown("accumulator compared inside its own loop")
            cx, cy = self.seg_len(x).const(), self.seg_len(y).const()
            if isinstance(x, Sl) and isinstance(y, Sl) and (cx is None or cy is None or min(cx, cy) > 6):
                xb, yb = self.cterm(x.base), self.cterm(y.base)
                if xb == yb and self.same_int(x.lo, y.lo):
                    n = x.len if self.decide(C("ge", y.len - x.len)) else y.len
                    pos = pos + n
                    _, a = self.split(a, n)
                    _, b = self.split(b, n)
                    a, b = self.norm_segs(a), self.norm_segs(b)
                    continue
            if isinstance(x, Rep) and isinstance(y, Rep):
                if not self.decide(C("eq", x.count - y.count)):
                    return Diff(path + "[%r].count" % pos, x, y)
                j = self.fresh("j")
                saved = None
                self.assume(C("ge", x.count - j - 1))
                d = self.diff_seq(VecV(self.rep_at(x, j), A.ety), VecV(self.rep_at(y, j), B.ety), path + "[rep %r]" % j, depth + 1)
                if d is not None:
                    return d
                a, b = a[1:], b[1:]
                continue
            if isinstance(x, Rep) != isinstance(y, Rep):
                r, o = (x, y) if isinstance(x, Rep) else (y, x)
                if isinstance(o, Sl) and self.unit_rep(r):
                    n = r.count if self.decide(C("ge", o.len - r.count)) else o.len
                    j = self.fresh("j")
                    self.assume(C("ge", n - j - 1))
                    re, oe = self.rep_at(r, j)[0], self.elem_at(o, j)
                    rv = self.front([re])[0]
                    d = self.diff(*((rv, oe) if r is x else (oe, rv)), "%s[rep %r]" % (path, j), depth + 1)
                    if d is not None:
                        return d
                    a = self.drop_front(a, n)
                    b = self.drop_front(b, n)
                    pos = pos + n
                    continue
            va, a = self.front(a)
            vb, b = self.front(b)
            d = self.diff(va, vb, "%s[%r]" % (path, pos), depth + 1)
            if d is not None:
                return d
            pos = pos + 1
        raise Unknown("long sequences")

    def cut(self, segs, n):
        s = segs[0]
        left = self.norm(s.len - n)
        if left.const() == 0:
            return segs[1:]
        return [Sl(s.base, s.ety, self.norm(s.lo + n), left)] + list(segs[1:])

    def unit_rep(self, r):
        try:
            return all(self.norm(sum((self.seg_len(s) for s in segs), ZERO)).const() == 1 for _, segs in r.branches)
        except Unknown:
            return False

    def drop_front(self, segs, n):
        segs = list(segs)
        s = segs[0]
        if isinstance(s, Rep):
            if self.same_int(s.count, n):
                return segs[1:]
            return [self.rep_from(s, n)] + segs[1:]
        return self.split(segs, n)[1]

    def drop_empty_for_diff(self, segs):
        segs = list(segs)
        while segs:
            s = segs[0]
            if isinstance(s, (Elem, Pre)):
                return segs
            if isinstance(s, Rep):
                if self.decide(C("ge", s.count - 1)):
                    return segs
            elif self.decide(C("ge", s.len - 1)):
                return segs
            segs.pop(0)
        return segs


class Partial_t:
    pass
