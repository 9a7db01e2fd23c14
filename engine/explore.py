"""Trace partitioning: run one obligation on every disjunct of its abstract input."""
import time
from .poly import P, ATOMS, term_name
from .values import *
from .ctx import Ctx, Hooks
from .interp import Interp
from .rel import Diff
from . import witness


class Outcome:
    def __init__(self, kind, text, ctx, where=None):
        self.kind = kind        # ok, bad, undecided
        self.text = text
        self.where = where
        self.ctx = ctx
        self.env = None


class Result:
    def __init__(self, name):
        self.name = name
        self.ok = 0
        self.dead = 0
        self.bad = []
        self.undecided = {}
        self.locals = set()
        self.wall = 0.0
        self.steps = 0
        self.complete = True

    def note(self, why):
        self.undecided[why] = self.undecided.get(why, 0) + 1

    @property
    def proved(self):
        return not self.bad and not self.undecided and self.complete and self.ok > 0


class X:
    """What an obligation works with."""

    def __init__(self, prog, ctx, it):
        self.prog = prog
        self.ctx = ctx
        self.it = it

    # types and inputs
    def root(self, name):
        f = self.prog.roots().get(name)
        if f is None:
            raise Missing("entry point `%s`" % name)
        return f

    def argtys(self, name):
        b = self.prog.fns[self.root(name)]["body"]
        return [l["ty"] for l in b["locals"][1:1 + b["arg_count"]]]

    def sym(self, name, ty):
        return self.ctx.mk(ty, ("in", name))

    def int(self, name):
        return self.ctx.mk(self.prog.usize, ("in", name))

    def ref(self, v, mut=False):
        return Ref(Cell(v), (), None, mut)

    def to(self, ty):
        return self.prog.t(ty)["to"]

    # running
    def run(self, name, *args):
        fid = self.root(name)
        b = self.prog.fns[fid]["body"]
        return self.it.call(fid, list(args), b["locals"][0]["ty"])

    # facts
    def assume(self, *cs):
        for c in cs:
            self.ctx.assume(c)

    def decide(self, c):
        return self.ctx.decide(c)

    def ge(self, a, b):
        return C("ge", self.p(a) - self.p(b))

    def lt(self, a, b):
        return C("ge", self.p(b) - self.p(a) - 1)

    def eq(self, a, b):
        return C("eq", self.p(a) - self.p(b))

    def p(self, x):
        return P.c(x) if isinstance(x, int) else x

    def need(self, got, want, what):
        """Obligation: the value the code computed is the one the property demands."""
        d = self.ctx.diff(want, got)
        if d is not None:
            raise Bad(what, d)

    def check(self, cond, what):
        if not self.ctx.decide(cond):
            raise Bad(what, None)

    def fail(self, what):
        raise Bad(what, None)


class Bad(Exception):
    def __init__(self, what, diff):
        self.what = what
        self.diff = diff


def explore(prog, name, obligation, hooks=Hooks, unroll=3, max_paths=20000, budget=120.0, setup=None, stop_after=3, small=0):
    res = Result(name)
    t0 = time.time()
    work = [()]
    n = 0
    while work:
        if n >= max_paths or time.time() - t0 > budget:
            res.complete = False
            res.note("budget of the obligation exhausted")
            break
        prefix = work.pop()
        n += 1
        ctx = Ctx(prog, prefix, hooks() if callable(hooks) else hooks)
        ctx.K, ctx.sized = small, set()
        it = Interp(ctx, unroll)
        it.deadline = t0 + budget
        x = X(prog, ctx, it)
        if setup is not None:
            setup(x)
        bad = None
        try:
            obligation(x)
            res.ok += 1
        except Dead:
            res.dead += 1
        except Unknown as e:
            res.note("%s [%s]" % (e, ctx_where(it)))
        except Panic as e:
            bad = ("panics: %s" % e.kind, e.where)
        except Bad as e:
            bad = ("%s%s" % (e.what, "" if e.diff is None else ": " + str(e.diff)), None)
        except RecursionError:
            res.note("recursion too deep")
        res.locals |= it.visited_local
        res.steps += it.steps
        if bad is not None:
            env = witness.find(ctx)
            if env is None:
                res.note("possible difference without a concrete instance: " + bad[0][:200])
            else:
                o = Outcome("bad", bad[0], ctx, bad[1])
                o.env = env
                res.bad.append(o)
                if len(res.bad) >= stop_after:
                    res.complete = False
                    break
        for i in range(len(ctx.trace) - 1, len(prefix) - 1, -1):
            v, alts = ctx.trace[i]
            if alts:
                base = tuple((w, ()) for w, _ in ctx.trace[:i])
                for a in reversed(alts):
                    work.append(base + ((a, ()),))
    res.paths = n
    res.wall = time.time() - t0
    return res


def ctx_where(it):
    f = it.last_where
    return f or "?"


def describe(o):
    """Readable instance of a violated obligation."""
    out = []
    for t, v in sorted(o.ctx.variants.items(), key=lambda x: repr(x[0])):
        ty = o.ctx.variant_tys.get(t)
        nm = o.ctx.prog.t(ty)["variants"][v]["name"] if ty is not None else v
        out.append("%s is %s" % (term_name(t), nm))
    for a, v in sorted(o.env.items(), key=lambda x: term_name(ATOMS[x[0]])):
        if ATOMS[a][0] in ("int", "len", "bool", "lcp"):
            out.append("%s = %s" % (term_name(ATOMS[a]), v))
    return "; ".join(out)
