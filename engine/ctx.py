"""One abstract state along one disjunct of the analysis: linear facts about atoms, the enum variants
input places are known to have, and the decisions that select the disjunct."""
from . import lp
from .poly import P, ZERO, ONE, ATOMS, atom_id, term_name
from .values import *
from .rel import Rel, Partial_t

CONGRUENT = ("int", "len", "lcp", "bool", "q", "rows")
BV = atom_id(("bv", 0))


def map_term(t, f):
    """Rebuild a term, applying f to every polynomial in it."""
    if isinstance(t, P):
        return f(t)
    if isinstance(t, tuple):
        r = tuple(map_term(x, f) for x in t)
        return t if all(a is b for a, b in zip(r, t)) else r
    return t


class Ctx(Rel):
    def __init__(self, prog, prefix=(), hooks=None):
        self.prog = prog
        self.trace = list(prefix)
        self.pos = 0
        self.cons = []
        self.consset = set()
        self.sub = {}
        self.ne = []
        self.variants = {}
        self.touched = set()
        self.hooks = hooks or Hooks()
        self.taint = []
        self.deref = {}
        self.lcps = []
        self.bools = {}
        self.headers = 0
        self.steps = 0
        self.recs = {}
        self.where = None
        self.seen_fns = set()
        self.log = []
        self.fresh_n = 0
        self.boxty = {}
        self.baselen = {}
        self.canon = {}
        self.neqs = []
        self.max = None
        self.stack = []
        self.assumed = set()
        self.variant_tys = {}
        self.in_types = {}
        self.glog = None        # conditions of a generic round being evaluated
        self.gmark = 0          # cells made before it must not be written

    # ---- generic rounds ---------------------------------------------------------------------
    SNAP = ("cons", "consset", "sub", "ne", "variants", "touched", "deref", "lcps", "bools", "recs", "boxty", "baselen", "canon",
            "neqs", "assumed", "variant_tys", "in_types", "trace")

    def snapshot(self):
        return {k: getattr(self, k).copy() for k in self.SNAP}, self.pos, self.fresh_n, self.glog, self.gmark

    def restore(self, s):
        for k, v in s[0].items():
            setattr(self, k, v.copy())
        self.pos, self.glog, self.gmark = s[1], s[3], s[4]

    def generic(self, bv, count, fn, limit=24):
        """fn() evaluated for the round `bv` of `count` rounds: [(conditions on bv, result)].  Conditions that do
        not depend on the round are decided first, in the surrounding state."""
        b = P.a(bv)
        for _ in range(40):
            outs, work, outer = [], [()], None
            saved = self.snapshot()
            try:
                while work and outer is None:
                    if len(outs) > limit:
                        raise Unknown("too many kinds of rounds")
                    prefix = work.pop()
                    self.restore(saved)
                    self.trace, self.pos, self.glog, self.gmark = list(prefix), 0, [], Cell.count
                    try:
                        self.assume(C("ge", count - 1 - b))
                        r = fn()
                    except Dead:
                        r = None
                    except Panic as e:
                        raise Unknown("a round may panic (%s)" % e.kind)
                    log = self.glog
                    for c in log:
                        if not (mentions(c[2], bv) if c[0] == "var" else mentions(c[1], bv)):
                            outer = c
                            break
                    if outer is not None:
                        break
                    if r is not None:
                        outs.append((tuple(log), r))
                    for i in range(len(self.trace) - 1, len(prefix) - 1, -1):
                        v, alts = self.trace[i]
                        if alts:
                            base = tuple((w, ()) for w, _ in self.trace[:i])
                            for a in reversed(alts):
                                work.append(base + ((a, ()),))
            finally:
                self.restore(saved)
            if outer is None:
                return outs
            if outer[0] == "var":
                self.variant(Sym(outer[1], outer[2]))
            else:
                self.decide(C(outer[0], outer[1]))
        raise Unknown("rounds of a loop that differ in too many ways")

    # ---- decisions --------------------------------------------------------------------------
    def choose(self, options):
        """options: list of feasible alternatives (hashable); returns the one of this disjunct."""
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
            self.pos += 1
            return v
        if not options:
            raise Dead()
        self.trace.append((options[0], tuple(options[1:])))
        self.pos += 1
        return options[0]

    K = 0               # sizes of the instances looked at one by one; 0: all sizes at once

    def small(self, p):
        """Split into the disjuncts in which the sizes in p are known numbers up to K."""
        p = self.norm(p)
        while True:
            sized = [a for a in p.atoms() if a in self.sized or ATOMS[a][0] in ("len", "q", "r")]
            if not sized:
                return p
            a = sized[0]
            q = P.a(a)
            v = None
            if not self.replaying():
                top = (self.K + 1) ** 2 if ATOMS[a][0] in ("q", "r") else self.K
                v = [n for n in range(top + 1) if self.possible(C("eq", q - n))]
            v = self.choose(v)
            if self.glog is not None:
                self.glog.append(("eq", q - v))
            self.assume(C("eq", q - v))
            p = self.norm(p)

    def replaying(self):
        return self.pos < len(self.trace)

    # ---- numeric facts ----------------------------------------------------------------------
    def touch(self, p):
        again = True
        while again:
            again = False
            for a in p.atoms():
                if a not in self.touched:
                    self.touched.add(a)
                    self.atom_facts(a)
                    self.register(a)
                    again = True
            if again:
                q = p.subst(self.sub)
                if q != p:
                    p = q
        return p

    def norm(self, p):
        if self.sub:
            p = p.subst(self.sub)
        for m in p.t:
            for a in m:
                if a not in self.touched:
                    self.touch(p)
                    return self.norm(p)
        return p

    def atom_facts(self, a):
        key = ATOMS[a]
        k = key[0]
        if k in ("q", "r"):
            num, w = key[1], key[2]
            qa, ra = atom_id(("q", num, w)), atom_id(("r", num, w))
            self.touched.add(qa)
            self.touched.add(ra)
            num = self.norm(num)
            w = self.norm(w)
            r = num - P.a(qa) * w
            if ra not in self.sub and ra not in r.atoms():
                self.bind(ra, r)
            else:
                self.add_eq(r - P.a(ra))
            self.add_ge(w - r - 1)
            self.add_ge(r)
        elif k == "lcp":
            pass
        elif k == "bool":
            self.add_ge(ONE - P.a(a))
        self.hooks.atom(self, a, key)

    def atom(self, key):
        return self.norm(P.a(atom_id(key)))

    def fresh(self, name):
        self.fresh_n += 1
        return self.atom(("fresh", name, self.fresh_n))

    def relevant(self, extra):
        """Constraints connected to `extra` through shared atoms."""
        atoms = set()
        for p in extra:
            atoms |= p.atoms()
        rest = list(self.cons)
        out = list(extra)
        changed = True
        while changed and rest:
            changed = False
            nxt = []
            for c in rest:
                if any(x in atoms for m in c.t for x in m):
                    out.append(c)
                    n = len(atoms)
                    atoms |= c.atoms()
                    changed = changed or len(atoms) != n
                else:
                    nxt.append(c)
            rest = nxt
        return out

    def feasible_with(self, *extra):
        ex = []
        for p in extra:
            c = p.const()
            if c is not None:
                if c < 0:
                    return False
            else:
                ex.append(p)
        if not ex:
            return True
        return lp.feasible(self.relevant(ex))

    def possible(self, c):
        """Might the condition hold?"""
        p = self.norm(c.p)
        if c.kind == "ge":
            return self.feasible_with(p)
        if c.kind == "eq":
            k = p.const()
            if k is not None:
                return k == 0
            for d in self.ne:
                if d == p or d == -p:
                    return False
            return self.feasible_with(p, -p)
        k = p.const()
        if k is not None:
            return k != 0
        return self.feasible_with(p - 1) or self.feasible_with(-p - 1)

    def implied(self, c):
        return not self.possible(c.neg())

    def ge(self, a, b=0):
        return self.implied(C("ge", a - b))

    def same_int(self, a, b):
        d = self.norm(a - b)
        k = d.const()
        if k is not None:
            return k == 0
        return self.implied(C("eq", d))

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Dead()
            return
        p = self.norm(c.p)
        if c.kind == "ge":
            self.add_ge(p)
        elif c.kind == "eq":
            self.add_eq(p)
        else:
            k = p.const()
            if k is not None:
                if k == 0:
                    raise Dead()
                return
            self.ne.append(p)
            self.tighten_ne()

    def tighten_ne(self):
        out = []
        for p in self.ne:
            p = self.norm(p)
            k = p.const()
            if k is not None:
                if k == 0:
                    raise Dead()
                continue
            lo = self.feasible_with(p - 1)
            hi = self.feasible_with(-p - 1)
            if not lo and not hi:
                raise Dead()
            if not hi:
                self._add(p - 1)
            elif not lo:
                self._add(-p - 1)
            else:
                out.append(p)
        self.ne = out

    def _add(self, p):
        p = lp.tighten(p)
        if p in self.consset:
            return
        if all(c >= 0 for c in p.t.values()):
            return
        self.consset.add(p)
        self.cons.append(p)

    def add_ge(self, p):
        p = self.norm(p)
        k = p.const()
        if k is not None:
            if k < 0:
                raise Dead()
            return
        if () not in p.t and all(c < 0 for c in p.t.values()):
            # a sum of non-negative terms is at most 0
            lin = [m for m in p.t if len(m) == 1]
            if lin:
                for m in lin:
                    self.add_eq(P({m: 1}))
                if len(lin) < len(p.t):
                    self.add_ge(p)
                return
        self._add(p)
        if -p in self.consset and p in self.consset:
            self.add_eq(p)
        if self.ne:
            self.tighten_ne()

    def add_eq(self, p):
        p = self.norm(p)
        k = p.const()
        if k is not None:
            if k != 0:
                raise Dead()
            return
        # solve for an atom that occurs only linearly with coefficient +-1
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and abs(c) == 1:
                a = m[0]
                if sum(1 for n in p.t if a in n) == 1 and a != BV:
                    kind = ATOMS[a][0]
                    rank = (kind in ("q", "r"), kind == "lcp", kind == "in_w", -a)
                    if kind == "it":
                        rank = (False, False, False, -10 ** 9)
                    if best is None or rank < best[0]:
                        best = (rank, a, c)
        if best is None:
            self._add(p)
            self._add(-p)
            return
        _, a, c = best
        e = (P.a(a) * c - p) * c if c == 1 else P.a(a) + p
        # c*a + rest = 0  ->  a = -rest/c
        rest = p - P.a(a) * c
        e = -rest if c == 1 else rest
        self.bind(a, e)

    def bind(self, a, e):
        """Replace atom a by e (all facts about a carry over, including a >= 0)."""
        self.sub = {k: v.subst({a: e}) for k, v in self.sub.items()}
        self.sub[a] = e
        old = self.cons
        self.cons = []
        self.consset = set()
        for q in old + [e]:
            q = q.subst({a: e})
            k = q.const()
            if k is not None:
                if k < 0:
                    raise Dead()
                continue
            self._add(q)
        self.rehash()
        if self.ne:
            self.tighten_ne()

    def register(self, a):
        """A new name of a place that is already known under another name."""
        key = ATOMS[a]
        if key[0] in CONGRUENT:
            k = map_term(key, lambda p: p.subst(self.sub)) if self.sub else key
            b = self.canon.setdefault(k, a)
            if b != a:
                d = (P.a(a) - P.a(b)).subst(self.sub)
                if d.const() is None:
                    self.add_eq(d)
                elif d.const() != 0:
                    raise Dead()

    def rehash(self):
        """After a new equality: names of places that became equal denote the same integer."""
        if self.variants:
            self.variants = {self.cterm(t): v for t, v in self.variants.items()}
            self.variant_tys = {self.cterm(t): v for t, v in self.variant_tys.items()}
        if self.bools:
            self.bools = {self.cterm(t): v for t, v in self.bools.items()}
        self.canon = seen = {}
        for a in sorted(self.touched):
            key = ATOMS[a]
            if key[0] in CONGRUENT:
                k = map_term(key, lambda p: p.subst(self.sub))
                if k in seen:
                    b = seen[k]
                    d = (P.a(a) - P.a(b)).subst(self.sub)
                    if d.const() is None:
                        return self.add_eq(d)
                    if d.const() != 0:
                        raise Dead()
                else:
                    seen[k] = a

    def decide(self, c):
        """Truth of a condition in this disjunct."""
        if isinstance(c, bool):
            return c
        if isinstance(c, Not):
            return not self.decide(c.c)
        if isinstance(c, P):
            raise Unknown("integer used as condition")
        if not isinstance(c, C):
            raise Unknown("condition %r" % (c,))
        p = self.norm(c.p)
        if self.K:
            p = self.small(p)
        c = C(c.kind, p)
        k = p.const()
        if k is not None:
            return {"ge": k >= 0, "eq": k == 0, "ne": k != 0}[c.kind]
        if self.replaying():
            v = self.choose(())
            if v in ("T", "F"):
                return v == "T"
            if self.glog is not None:
                d = c if v else c.neg()
                self.glog.append((d.kind, d.p))
            self.assume(c if v else c.neg())
            return v
        n = c.neg()
        t, f = self.possible(c), self.possible(n)
        if t and f:
            v = self.choose([True, False])
            if self.glog is not None:
                d = c if v else n
                self.glog.append((d.kind, d.p))
            self.assume(c if v else n)
            return v
        if not t and not f:
            raise Dead()
        # forced: recorded so that replays need not ask again
        self.choose(["T" if t else "F"])
        return t

    # ---- terms ------------------------------------------------------------------------------
    def cterm(self, t):
        """Canonical form of a term under the current equalities."""
        t = map_term(t, self.norm)
        if self.lcps:
            t = self._merge(t)
        return t

    def _merge(self, t):
        if not isinstance(t, tuple):
            return t
        t = tuple(self._merge(x) if isinstance(x, tuple) else x for x in t)
        if t and t[0] == "at":
            for (a, la, b, lb, L) in self.lcps:
                if t[1] == b:
                    i = self.norm(t[2] - lb)
                    if self.ge(i) and self.ge(L - i - 1):
                        return self._merge(("at", a, self.norm(i + la)))
        return t

    def type_of(self, term):
        """Static type of an input place, derived from the types of the entry point's arguments."""
        k = term[0]
        if k == "in":
            return self.in_types.get(term)
        if k in ("f", "vf", "d", "at"):
            ty = self.type_of(term[1])
            if ty is None:
                return None
            t = self.prog.t(ty)
            if k == "d":
                return t["to"] if "to" in t else (t["args"][0] if t.get("args") else None)
            if k == "at":
                try:
                    return self.elem_ty(ty)
                except Unknown:
                    return None
            var = 0
            if k == "vf":
                var = self.prog.variant_index(ty, term[2])
                if var is None:
                    return None
            try:
                fs = self.prog.fields(ty, var)
            except (KeyError, IndexError):
                return None
            for n, ft in fs:
                if n == term[-1]:
                    return ft
        return None

    def mk(self, ty, term):
        if term[0] == "in":
            self.in_types[term] = ty
        t = self.prog.t(ty)
        k = t["k"]
        term = self.cterm(term)
        if k in ("uint", "int", "char"):
            if self.K and t["text"] == "usize":
                self.sized.add(atom_id(("int", term)))
            return self.atom(("int", term))
        if k == "bool":
            return C("ge", self.atom(("bool", term)) - 1)
        if k == "tuple" and not t["elems"]:
            return Agg(ty, 0, ())
        if k == "fndef":
            return Fn(ty)
        return Sym(ty, term)

    def field_term(self, s, variant, i):
        t = self.prog.t(s.ty)
        if t["k"] == "adt":
            name = t["variants"][variant]["fields"][i][0]
            if t["kind"] == "Enum":
                return ("vf", s.term, t["variants"][variant]["name"], name)
            return ("f", s.term, name)
        return ("f", s.term, str(i))

    def field(self, v, i, fty=None, variant=None):
        if isinstance(v, Agg):
            return v.fields[i]
        if isinstance(v, Sym):
            if v.term[0] == "rec" and v.term in self.recs:
                return self.field(self.unrec(v), i, fty, variant)
            fs = self.prog.fields(v.ty, variant or 0)
            if not fs:
                raise Unknown("field %s of %s" % (i, self.prog.text(v.ty)))
            return self.mk(fs[i][1], self.field_term(v, variant or 0, i))
        if isinstance(v, (BoxV, Ref)):
            return v        # Box / Unique / NonNull wrappers
        if isinstance(v, Hole):
            return self.field(self.unhole(v), i, fty, variant)
        if isinstance(v, Partial) and i in v.d:
            return v.d[i]
        raise Unknown("field %s of %r" % (i, v))

    def unhole(self, h):
        if self.decide(C("eq", h.count)):
            return h.cell.v
        raise Unknown("reading a place while a loop holds a borrow into it")

    def unrec(self, s):
        v0, tmpl, i = self.recs[s.term]
        if self.decide(C("eq", i)):
            return v0
        prev = Sym(s.ty, ("rec",) + s.term[1:3] + (self.norm(i - 1),))
        self.recs[prev.term] = (v0, tmpl, self.norm(i - 1))
        return self.subst_val(tmpl, {BV: self.norm(i - 1)}, {("HOLE",): prev.term})

    def variant(self, v):
        """Variant index of an enum value."""
        if isinstance(v, Agg):
            return v.variant
        if isinstance(v, Hole):
            return self.variant(self.unhole(v))
        if not isinstance(v, Sym):
            raise Unknown("variant of %r" % (v,))
        if v.term[0] == "rec" and v.term in self.recs:
            return self.variant(self.unrec(v))
        term = self.cterm(v.term)
        if term in self.variants:
            return self.variants[term]
        n = len(self.prog.t(v.ty)["variants"])
        opts = [i for i in range(n) if self.hooks.variant_ok(self, v.ty, term, i)]
        if n == 0:
            raise Dead()
        c = self.choose(opts)
        if self.glog is not None and len(opts) > 1:
            self.glog.append(("var", v.ty, term, c))
        self.variants[term] = c
        self.variant_tys[term] = v.ty
        self.hooks.variant(self, v.ty, term, c)
        return c

    def is_variant(self, v, name):
        return self.prog.t(v.ty)["variants"][self.variant(v)]["name"] == name

    def get(self, v, name):
        """Field of a struct value by name."""
        ty = v.ty
        for i, (n, t) in enumerate(self.prog.fields(ty)):
            if n == name:
                return self.field(v, i)
        raise Missing("field `%s` of %s" % (name, self.prog.text(ty)))

    def vget(self, v, variant, name):
        t = self.prog.t(v.ty)
        vi = self.prog.variant_index(v.ty, variant)
        if vi is None:
            raise Missing("variant %s of %s" % (variant, t["text"]))
        for i, (n, _) in enumerate(t["variants"][vi]["fields"]):
            if n == name:
                return self.field(v, i, variant=vi)
        raise Missing("field `%s` of %s::%s" % (name, t["text"], variant))

    def expand(self, v):
        """Sym of struct (or enum with known variant) -> Agg."""
        if isinstance(v, Agg):
            return v
        if isinstance(v, Hole):
            return self.expand(self.unhole(v))
        if isinstance(v, Sym):
            t = self.prog.t(v.ty)
            var = self.variant(v) if self.prog.is_enum(v.ty) else 0
            fs = self.prog.fields(v.ty, var)
            return Agg(v.ty, var, [self.field(v, i, variant=var) for i in range(len(fs))])
        raise Unknown("expand %r" % (v,))

    def deref_cell(self, v):
        """Cell a symbolic reference / box points to."""
        t = self.prog.t(v.ty)
        to = t["to"] if "to" in t else t["args"][0]
        term = ("d", self.cterm(v.term))
        c = self.deref.get(term)
        if c is None:
            c = Cell(self.mk(to, term))
            self.deref[term] = c
        return c

    # ---- memory -----------------------------------------------------------------------------
    def read(self, ref):
        v = ref.cell.v
        for i, variant in ref.path:
            v = self.field(v, i, variant=variant)
        return v

    def write(self, ref, val):
        if self.glog is not None and ref.cell.n <= self.gmark:
            raise Unknown("a round writes to memory outside of it")
        ref.cell.v = self._set(ref.cell.v, ref.path, val)

    def _set(self, v, path, val):
        if not path:
            return val
        i, variant = path[0]
        if isinstance(v, (BoxV, Ref)):
            return self._set(v, path[1:], val)
        if v is UNINIT:
            if variant is None:
                return Partial({i: self._set(UNINIT, path[1:], val)})
            raise Unknown("write into uninitialised place")
        if isinstance(v, Partial):
            d = dict(v.d)
            d[i] = self._set(d.get(i, UNINIT), path[1:], val)
            return Partial(d)
        v = self.expand(v)
        f = list(v.fields)
        f[i] = self._set(f[i], path[1:], val)
        return Agg(v.ty, v.variant, f)

    # ---- sequences --------------------------------------------------------------------------
    def elem_ty(self, ty):
        t = self.prog.t(ty)
        if t["k"] in ("array", "slice"):
            return t["elem"]
        if t["k"] == "adt" and t["name"].endswith("vec::Vec"):
            return t["args"][0]
        if t["k"] == "str" or t["k"] == "adt" and t["name"].endswith("string::String"):
            return self.prog.char
        raise Unknown("not a sequence: " + t["text"])

    def vec(self, v, ety=None):
        if isinstance(v, VecV):
            return v
        if isinstance(v, Hole):
            return self.vec(self.unhole(v))
        if isinstance(v, Sym):
            if v.term[0] == "rec" and v.term in self.recs:
                return self.vec(self.unrec(v))
            t = self.prog.t(v.ty)
            e = self.elem_ty(v.ty)
            if t["k"] == "array":
                ln = P.c(t["len"])
            else:
                ln = self.len_of(v)
            self.baselen[v.term] = ln
            return VecV((Sl(v.term, e, ZERO, ln),), e)
        raise Unknown("sequence expected: %r" % (v,))

    def len_of(self, v):
        r = self.hooks.length(self, v)
        if r is not None:
            return self.norm(r)
        return self.atom(("len", self.cterm(v.term)))

    def seg_len(self, s):
        if isinstance(s, Elem):
            return ONE
        if isinstance(s, Sl):
            return self.norm(s.len)
        if isinstance(s, Rep):
            ls = []
            for conds, segs in s.branches:
                n = ZERO
                for x in segs:
                    n = n + self.seg_len(x)
                ls.append(n)
            if any(s.bv in l.atoms() for l in ls) or any(l != ls[0] for l in ls):
                raise Unknown("length of a data dependent repetition")
            return self.norm(s.count * ls[0])
        raise Unknown("length of accumulator inside its own loop")

    def vlen(self, v):
        n = ZERO
        for s in v.segs:
            n = n + self.seg_len(s)
        return self.small(n) if self.K else self.norm(n)

    def elem_at(self, s, i):
        """Value of base[lo + i] for an Sl."""
        return self.mk(s.ety, ("at", self.cterm(s.base), self.norm(s.lo + i)))

    def split(self, segs, n):
        """Split a segment list after n elements."""
        segs = list(segs)
        n = self.norm(n)
        out = []
        while True:
            if n.const() == 0:
                return out, segs
            if not segs:
                if self.decide(C("eq", n)):
                    return out, segs
                raise Unknown("split beyond the end")
            s = segs[0]
            if isinstance(s, Rep) and len(segs) >= 1 and not self.same_int(n, ZERO):
                l = self.seg_len(s)
                if self.decide(C("ge", n - l)):
                    out.append(s)
                    segs.pop(0)
                    n = self.norm(n - l)
                    continue
                if self.decide(C("eq", n)):
                    return out, segs
                if not self.unit_rep(s):
                    raise Unknown("split inside a repetition")
                out.append(Rep(n, s.bv, s.branches))
                segs[0] = self.rep_from(s, n)
                return out, segs
            l = self.seg_len(s)
            if isinstance(s, Elem):
                if not self.decide(C("ge", n - 1)):
                    return out, segs
                out.append(s)
                segs.pop(0)
                n = self.norm(n - 1)
                continue
            if not self.decide(C("ge", l - n)):
                out.append(s)
                segs.pop(0)
                n = self.norm(n - l)
                continue
            out.append(Sl(s.base, s.ety, s.lo, n))
            segs[0] = Sl(s.base, s.ety, self.norm(s.lo + n), self.norm(s.len - n))
            return out, segs

    def slice(self, v, lo, ln):
        if len(v.segs) == 1 and isinstance(v.segs[0], Sl):
            s = v.segs[0]
            return VecV((Sl(s.base, s.ety, self.norm(s.lo + lo), self.norm(ln)),), v.ety)
        _, rest = self.split(v.segs, lo)
        mid, _ = self.split(rest, ln)
        return VecV(mid, v.ety)

    def index(self, v, i):
        """Value at index i (must be in bounds)."""
        if len(v.segs) == 1 and isinstance(v.segs[0], Sl):
            return self.elem_at(v.segs[0], i)
        _, rest = self.split(v.segs, i)
        return self.front(rest)[0]

    def front(self, segs):
        """(first value, remaining segments) of a non-empty segment list."""
        segs = list(segs)
        while segs:
            s = segs[0]
            if isinstance(s, Elem):
                return s.cell.v, segs[1:]
            if isinstance(s, Sl):
                if self.decide(C("ge", s.len - 1)):
                    return self.elem_at(s, ZERO), [Sl(s.base, s.ety, self.norm(s.lo + 1), self.norm(s.len - 1))] + segs[1:]
                segs = segs[1:]
                continue
            if isinstance(s, Rep):
                if self.decide(C("ge", s.count - 1)):
                    first = self.rep_at(s, ZERO)
                    rest = self.rep_shift(s)
                    segs = list(first) + [rest] + segs[1:]
                    continue
                segs = segs[1:]
                continue
            raise Unknown("front of accumulator")
        raise Unknown("front of empty sequence")

    def back(self, segs):
        segs = list(segs)
        while segs:
            s = segs[-1]
            if isinstance(s, Elem):
                return s.cell.v, segs[:-1]
            if isinstance(s, Sl):
                if self.decide(C("ge", s.len - 1)):
                    n = self.norm(s.len - 1)
                    return self.elem_at(s, n), segs[:-1] + [Sl(s.base, s.ety, s.lo, n)]
                segs = segs[:-1]
                continue
            raise Unknown("back of repetition")
        raise Unknown("back of empty sequence")

    def rep_at(self, r, j):
        """Segments of iteration j; decides which branch applies."""
        if len(r.branches) == 1:
            return [self.subst_seg(s, {r.bv: j}, {}) for s in r.branches[0][1]]
        for conds, segs in r.branches:
            ok = True
            for c in conds:
                if c[0] == "var":
                    ty, term, want = c[1:]
                    if self.variant(Sym(ty, self.subst_term(term, {r.bv: j}, {}))) != want:
                        ok = False
                        break
                    continue
                p = self.subst_poly(c[1], {r.bv: j}, {})
                if not self.decide(C(c[0], p)):
                    ok = False
                    break
            if ok:
                return [self.subst_seg(s, {r.bv: j}, {}) for s in segs]
        raise Dead()

    def rep_shift(self, r):
        return self.rep_from(r, ONE)

    def rep_from(self, r, n):
        """The repetition without its first n rounds."""
        nb = []
        sh = {r.bv: P.a(r.bv) + n}
        for conds, segs in r.branches:
            nb.append((tuple((c[0], self.subst_poly(c[1], sh, {})) if c[0] != "var" else
                             ("var", c[1], self.subst_term(c[2], sh, {}), c[3]) for c in conds),
                       tuple(self.subst_seg(s, sh, {}) for s in segs)))
        return Rep(self.norm(r.count - n), r.bv, tuple(nb))

    # ---- substitution -----------------------------------------------------------------------
    def subst_term(self, t, am, tm):
        if isinstance(t, P):
            return self.subst_poly(t, am, tm)
        if isinstance(t, tuple):
            if t in tm:
                return tm[t]
            return tuple(self.subst_term(x, am, tm) for x in t)
        return t

    def subst_poly(self, p, am, tm, norm=True):
        mp = {}
        for a in p.atoms():
            if a in am:
                mp[a] = am[a]
            else:
                key = ATOMS[a]
                if key[0] in ("int", "len", "q", "r", "lcp", "bool", "sum"):
                    k2 = self.subst_term(key, am, tm)
                    if k2 != key:
                        mp[a] = self.mk_atom(k2)
        if mp:
            p = p.subst(mp)
        return self.norm(p) if norm else p

    def mk_atom(self, key):
        if key[0] in ("q", "r"):
            q, r = self.divmod(key[1], key[2])
            return q if key[0] == "q" else r
        return self.atom(map_term(key, self.norm) if not self.lcps else self.cterm(key))

    def subst_seg(self, s, am, tm):
        if isinstance(s, Elem):
            return Elem(Cell(self.subst_val(s.cell.v, am, tm)))
        if isinstance(s, Sl):
            return Sl(self.subst_term(s.base, am, tm), s.ety, self.subst_poly(s.lo, am, tm), self.subst_poly(s.len, am, tm))
        if isinstance(s, Rep):
            br = []
            for conds, segs in s.branches:
                br.append((tuple((c[0], self.subst_poly(c[1], am, tm)) if c[0] != "var" else
                                 ("var", c[1], self.subst_term(c[2], am, tm), c[3]) for c in conds),
                           tuple(self.subst_seg(x, am, tm) for x in segs)))
            return Rep(self.subst_poly(s.count, am, tm), s.bv, tuple(br))
        return s

    def subst_val(self, v, am, tm):
        if isinstance(v, P):
            return self.subst_poly(v, am, tm)
        if isinstance(v, Sym):
            return self.mk(v.ty, self.subst_term(v.term, am, tm))
        if isinstance(v, Agg):
            return Agg(v.ty, v.variant, [self.subst_val(x, am, tm) for x in v.fields])
        if isinstance(v, Ref):
            if v.path:
                return Ref(Cell(self.subst_val(self.read(v), am, tm)), (), v.rng, v.mut)
            rng = None if v.rng is None else tuple(self.subst_poly(x, am, tm) for x in v.rng)
            return Ref(Cell(self.subst_val(v.cell.v, am, tm)), (), rng, v.mut)
        if isinstance(v, RcV):
            return v if v.cell.v is UNINIT else RcV(Cell(self.subst_val(v.cell.v, am, tm)))
        if isinstance(v, Partial):
            return Partial({i: self.subst_val(x, am, tm) for i, x in v.d.items()})
        if isinstance(v, BoxV):
            return BoxV(Cell(self.subst_val(v.cell.v, am, tm)))
        if isinstance(v, C):
            return C(v.kind, self.subst_poly(v.p, am, tm))
        if isinstance(v, VecV):
            return VecV([self.subst_seg(s, am, tm) for s in v.segs], v.ety)
        if isinstance(v, Disp):
            return Disp(v.ty, self.subst_val(v.v, am, tm))
        if isinstance(v, App):
            return App(v.fn, v.ty, [self.subst_val(a, am, tm) for a in v.args])
        return v

    def copyval(self, v):
        """An independent copy: later writes through one do not show in the other."""
        if isinstance(v, Agg):
            return Agg(v.ty, v.variant, [self.copyval(x) for x in v.fields])
        if isinstance(v, VecV):
            return VecV([Elem(Cell(self.copyval(s.cell.v))) if isinstance(s, Elem) else s for s in v.segs], v.ety)
        if isinstance(v, RcV):
            return v
        if isinstance(v, BoxV):
            return BoxV(Cell(self.copyval(v.cell.v)))
        if isinstance(v, OwnIter):
            return OwnIter(v.ty, self.copyval(v.vec))
        if isinstance(v, Sym) and v.term in self.boxty:
            return v
        return v

    # ---- arithmetic -------------------------------------------------------------------------
    def divmod(self, a, w):
        """(a / w, a % w) for w >= 1."""
        a, w = self.norm(a), self.norm(w)
        ka, kw = a.const(), w.const()
        if kw is not None and ka is not None:
            if kw == 0:
                raise Unknown("division by zero")
            return P.c(ka // kw), P.c(ka % kw)
        if kw == 1:
            return a, ZERO
        if kw is not None:
            # the part of a that is a multiple of the number
            q = P({m: (c // kw) for m, c in a.t.items() if c % kw == 0 or not m})
            s = self.norm(a - q * kw)
            if q.t and self.ge(q) and self.ge(s) and self.ge(w - s - 1):
                return self.norm(q), s
        # a = w*q + s with 0 <= s < w provable: polynomial division by each leading term of w
        for wm, wc in sorted(w.t.items(), key=lambda t: (-len(t[0]), t[0])):
            if not wm:
                continue
            q, s = ZERO, a
            for _ in range(20):
                for m, c in s.t.items():
                    mm = list(m)
                    if c % wc == 0 and all(mm.remove(x) is None if x in mm else False for x in wm):
                        d = P({tuple(mm): c // wc})
                        q = q + d
                        s = self.norm(s - d * w)
                        break
                else:
                    break
            if q.t and self.ge(s) and self.ge(w - s - 1) and self.ge(q):
                return self.norm(q), s
        if self.ge(w - a - 1):
            return ZERO, a
        q = self.atom(("q", a, w))
        r = self.atom(("r", a, w))
        return q, r

    # ---- folding back -----------------------------------------------------------------------
    def fold(self, v):
        """Undo expansion: an aggregate whose fields are all untouched becomes the input place again."""
        if isinstance(v, Agg) and v.fields:
            fs = [self.fold(f) for f in v.fields]
            src = None
            t = self.prog.t(v.ty)
            for i, f in enumerate(fs):
                term = self.term_of(f)
                if term is None or len(term) < 3 or term[0] not in ("f", "vf"):
                    return Agg(v.ty, v.variant, fs)
                if t["k"] == "adt":
                    if term[-1] != t["variants"][v.variant]["fields"][i][0]:
                        return Agg(v.ty, v.variant, fs)
                    if (t["kind"] == "Enum") != (term[0] == "vf"):
                        return Agg(v.ty, v.variant, fs)
                    if t["kind"] == "Enum" and term[2] != t["variants"][v.variant]["name"]:
                        return Agg(v.ty, v.variant, fs)
                elif term[0] != "f" or term[2] != str(i):
                    return Agg(v.ty, v.variant, fs)
                if src is None:
                    src = term[1]
                elif src != term[1]:
                    return Agg(v.ty, v.variant, fs)
            if src is not None and self.term_ty_ok(src, v.ty):
                return Sym(v.ty, src)
            return Agg(v.ty, v.variant, fs)
        if isinstance(v, VecV):
            segs = self.norm_segs(v.segs, v.ety)
            if len(segs) == 1 and isinstance(segs[0], Sl) and segs[0].lo.const() == 0:
                s = segs[0]
                ty = self.type_of(s.base)
                if ty is not None and self.same_int(s.len, self.vlen(self.vec(Sym(ty, s.base)))):
                    return Sym(ty, s.base)
            return VecV(segs, v.ety)
        if isinstance(v, BoxV):
            t = self.term_of(self.fold(v.cell.v))
            if t is not None and t[0] == "d" and t in self.boxty:
                return Sym(self.boxty[t], t[1])
        return v

    def term_ty_ok(self, term, ty):
        """Does the place `term` itself have type ty (and not merely a field of the same name)?"""
        return self.type_of(term) == ty

    def term_of(self, v):
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, P):
            if len(v.t) == 1:
                (m, c), = v.t.items()
                if c == 1 and len(m) == 1 and ATOMS[m[0]][0] == "int":
                    return ATOMS[m[0]][1]
            # an atom that has been solved for
            for a, e in self.sub.items():
                if e == v and ATOMS[a][0] == "int":
                    return ATOMS[a][1]
        if isinstance(v, C) and v.kind == "ge":
            q = v.p + 1
            if len(q.t) == 1:
                (m, c), = q.t.items()
                if c == 1 and len(m) == 1 and ATOMS[m[0]][0] == "bool":
                    return ATOMS[m[0]][1]
        return None

    def norm_segs(self, segs, hint=None):
        out = []
        for s in segs:
            if isinstance(s, Elem):
                v = self.fold(s.cell.v)
                t = self.term_of(v)
                if t is not None and t[0] == "at":
                    ety = v.ty if isinstance(v, Sym) else hint
                    s = Sl(t[1], ety, t[2], ONE)
                elif v is not s.cell.v:
                    s = Elem(Cell(v))
            elif isinstance(s, Sl):
                s = Sl(self.cterm(s.base), s.ety, self.norm(s.lo), self.norm(s.len))
            elif isinstance(s, Rep):
                s = self.norm_rep(s, hint)
            if isinstance(s, Sl):
                if s.len.const() == 0:
                    continue
                if out and isinstance(out[-1], Sl) and self.cterm(out[-1].base) == self.cterm(s.base):
                    o = out[-1]
                    if self.norm(o.lo + o.len - s.lo).const() == 0:
                        out[-1] = Sl(o.base, o.ety if o.ety is not None else s.ety, o.lo, self.norm(o.len + s.len))
                        continue
            out.append(s)
        return out

    def norm_rep(self, r, hint=None):
        br = [(c, tuple(self.norm_segs(s, hint))) for c, s in r.branches]
        cnt = self.norm(r.count)
        if cnt.const() == 0:
            return Sl(("in", "empty"), None, ZERO, ZERO)
        if len(br) == 1 and len(br[0][1]) == 1 and isinstance(br[0][1][0], Sl):
            s = br[0][1][0]
            b = P.a(r.bv)
            if not mentions(s.base, r.bv) and r.bv not in s.len.atoms():
                lo0 = s.lo.subst({r.bv: ZERO})
                if self.norm(s.lo - lo0 - b * s.len).const() == 0:
                    return Sl(s.base, s.ety, self.norm(lo0), self.norm(cnt * s.len))
        return Rep(cnt, r.bv, tuple(br))


class Partial(Partial_t):
    """Aggregate under construction, field by field."""
    def __init__(self, d):
        self.d = d


def mentions(t, a):
    if isinstance(t, P):
        return any(x == a or mentions(ATOMS[x], a) for x in t.atoms())
    if isinstance(t, tuple):
        return any(mentions(x, a) for x in t)
    return False


class Hooks:
    """Facts about the input of one obligation; overridden by the checks."""
    seq_types = {}
    term_types = {}

    def atom(self, ctx, a, key):
        pass

    def variant_ok(self, ctx, ty, term, i):
        return True

    def variant(self, ctx, ty, term, i):
        pass

    def length(self, ctx, v):
        return None
