"""X02, X05: operator precedence parsing, compared with an independent recursive reading of the rules."""
import itertools
from .base import *

FLAGS = ("atom", "open", "infix", "prefix", "postfix", "ends")
KINDS = ("atom", "open", "infix0", "infix1", "prefix0", "prefix1", "postfix0", "postfix1", "ends0", "ends1", "none")


class Tokens:
    """Tokens with known roles and arbitrary identities."""

    def __init__(self, x, kinds):
        self.x = x
        self.kinds = [frozenset(k.split("+")) for k in kinds]
        ty = x.prog.t(x.to(x.argtys("pratt")[0]))["elem"]
        self.ids = [x.int("token%d" % i) for i in range(len(kinds))]
        fs = x.prog.fields(ty)
        els = []
        for i, ks in enumerate(self.kinds):
            vals = []
            for n, t in fs:
                if n == "id":
                    vals.append(self.ids[i])
                elif n in ("atom", "open"):
                    vals.append(n in ks)
                else:
                    vals.append(VecV([Elem(Cell(("%s%d" % (n, j)) in ks)) for j in range(2)], x.prog.t(t).get("elem")))
            els.append(Agg(ty, 0, vals))
        self.slice = Ref(Cell(VecV([Elem(Cell(e)) for e in els], ty)), (), (ZERO, P.c(len(els))))

    def role(self, i, name):
        """Number of the role `name` token i has, if any."""
        for k in self.kinds[i]:
            if k.rstrip("01") == name:
                return int(k[-1]) if k[-1] in "01" else True
        return None


class Reference:
    """What the rules say: strengths are compared first by number, then weak before strong."""

    def __init__(self, x, toks, table):
        self.x = x
        self.t = toks
        self.n = len(toks.kinds)
        self.table = table
        self.memo = {}

    # binding powers as one number: 2v for a weak side, 2v + 1 for a strong one
    def infix_sides(self, i):
        v = self.table["infix"][i] * 2
        return (v + 1, v) if self.table["right"][i] else (v, v + 1)

    def missing_sides(self):
        kind, v = self.table["missing"]
        v = v * 2
        return (v + 1, v) if kind in ("RightInfix", "Postfix") else (v, v + 1)

    def less(self, a, b):
        return self.x.decide(self.x.lt(a, b))

    def atom(self, i):
        t = self.t
        if t.role(i, "atom"):
            return ("Atom", t.ids[i]), i + 1
        if t.role(i, "open"):
            if ("g", i) not in self.memo:
                inner, j, _ = self.expression(i + 1, ZERO, 1)
                self.memo["g", i] = None
                if j < self.n and t.role(j, "ends") == 1:
                    self.memo["g", i] = ("Group", t.ids[i], inner, t.ids[j]), j + 1
            return self.memo["g", i]
        return None

    def is_end(self, i, end):
        return i >= self.n or self.t.role(i, "ends") is not None and self.t.role(i, "ends") is not True and self.t.role(i, "ends") == end

    def operand_starts(self, i):
        return self.t.role(i, "prefix") is not None or self.atom(i) is not None

    def operator_starts(self, i):
        return self.t.role(i, "infix") is not None or self.t.role(i, "postfix") is not None

    def unknown(self, i, end):
        tree = ("Unknown", P.c(i), self.t.ids[i])
        i += 1
        while not self.is_end(i, end) and not self.operand_starts(i) and not self.operator_starts(i):
            tree = ("Gap", P.c(i), tree, ("Unknown", P.c(i), self.t.ids[i]))
            i += 1
        return tree, i

    def expression(self, i, least, end):
        """(tree, position after it, whether the formula or group has ended)."""
        t = self.t
        if i >= self.n:
            return ("Missing", P.c(i)), i, True
        pre = t.role(i, "prefix")
        if pre is not None:
            right, j, ended = self.expression(i + 1, self.table["prefix"][pre] * 2 + 1, end)
            left = ("Prefix", P.c(pre), t.ids[i], right)
            if ended:
                return left, j, True
            i = j
        elif self.atom(i) is not None:
            left, i = self.atom(i)
        elif self.operator_starts(i):
            left = ("Missing", P.c(i))
        elif self.is_end(i, end):
            return ("Missing", P.c(i)), i, True
        else:
            left, i = self.unknown(i, end)
        while True:
            if i >= self.n:
                return left, i, True
            op, post = t.role(i, "infix"), t.role(i, "postfix")
            if op is not None:
                l, r = self.infix_sides(op)
                if self.less(l, least):
                    return left, i, False
                right, j, ended = self.expression(i + 1, r, end)
                left = ("Infix", P.c(op), t.ids[i], left, right)
                i = j
                if ended:
                    return left, i, True
            elif post is not None:
                if self.less(self.table["postfix"][post] * 2 + 1, least):
                    return left, i, False
                left = ("Postfix", P.c(post), t.ids[i], left)
                i += 1
            elif self.operand_starts(i):
                l, r = self.missing_sides()
                if self.less(l, least):
                    return left, i, False
                right, j, ended = self.expression(i, r, end)
                left = ("Gap", P.c(i), left, right)
                i = j
                if ended:
                    return left, i, True
            elif self.is_end(i, end):
                return left, i, True
            else:
                at = i
                right, i = self.unknown(i, end)
                left = ("Gap", P.c(at), left, right)


def table_of(x, right, missing):
    ty = x.to(x.argtys("pratt")[1])
    names = [f[0] for f in x.prog.fields(ty)]
    tys = dict(x.prog.fields(ty))
    u16 = x.prog.t(tys["prefix"])["elem"]
    mk = lambda n: [x.sym("%s%d" % (n, i), u16) for i in range(2)]
    t = {"infix": mk("infix"), "prefix": mk("prefix"), "postfix": mk("postfix"), "right": list(right), "missing": (missing, x.sym("missing", u16))}
    arr = lambda vs, n: VecV([Elem(Cell(v)) for v in vs], x.prog.t(tys[n])["elem"])
    val = mk_struct(x, ty, infix=arr(t["infix"], "infix"), prefix=arr(t["prefix"], "prefix"), postfix=arr(t["postfix"], "postfix"),
                    right=arr(t["right"], "right"), missing=mk_variant(x, tys["missing"], missing, t["missing"][1]))
    return t, x.ref(val)


def same(x, got, want, path="tree"):
    """The tree the code built is the wanted one."""
    if not x.ctx.is_variant(got, want[0]):
        x.fail("%s should be %s" % (path, want[0]))
    for k, w in enumerate(want[1:]):
        g = x.ctx.vget(got, want[0], str(k))
        if isinstance(w, tuple):
            same(x, deref(x, g), w, "%s.%d" % (path, k))
        else:
            x.need(g, w, "%s.%d (%s)" % (path, k, want[0]))


def leaves(x, got, out):
    """Token identities of a tree from left to right."""
    v = lambda n, k: x.ctx.vget(got, n, str(k))
    sub = lambda n, k: leaves(x, deref(x, v(n, k)), out)
    for n in ("Missing", "Unknown", "Atom", "Group", "Gap", "Infix", "Prefix", "Postfix"):
        if x.ctx.is_variant(got, n):
            break
    if n in ("Unknown",):
        out.append(v(n, 1))
    elif n == "Atom":
        out.append(v(n, 0))
    elif n == "Group":
        out.append(v(n, 0)), sub(n, 1), out.append(v(n, 2))
    elif n == "Gap":
        sub(n, 1), sub(n, 2)
    elif n == "Infix":
        sub(n, 2), out.append(v(n, 1)), sub(n, 3)
    elif n == "Prefix":
        out.append(v(n, 1)), sub(n, 2)
    elif n == "Postfix":
        sub(n, 2), out.append(v(n, 1))
    return out


def result(x, r):
    if not x.ctx.is_variant(r, "Some"):
        x.fail("parsing gives no tree")
    pair = x.ctx.vget(r, "Some", "0")
    return x.ctx.field(pair, 0), x.ctx.field(pair, 1)


def choose_kinds(x, shape):
    """A shape is a list of roles or of lists of roles to choose from."""
    return [k if isinstance(k, str) else x.ctx.choose(list(k)) for k in shape]


def tree_ob(shape, above=False, flags=None, missing=None):
    def ob(x):
        kinds = choose_kinds(x, shape)
        used = set("+".join(kinds).split("+"))
        right = [x.ctx.choose([False, True]) if "infix%d" % i in used else False for i in range(2)] if flags is None else flags
        miss = x.ctx.choose(["LeftInfix", "RightInfix"]) if missing is None else missing
        toks = Tokens(x, kinds)
        table, tv = table_of(x, right, miss)
        ref = Reference(x, toks, table)
        if above:
            ty = x.argtys("pratt_above")[2]
            m = x.sym("least", ty)
            least = x.ctx.field(m, 0) * 2 + (1 if x.ctx.is_variant(x.ctx.field(m, 1), "Strong") else 0)
            got = x.run("pratt_above", toks.slice, tv, m)
        else:
            least = ZERO
            got = x.run("pratt", toks.slice, tv)
        tree, rest = result(x, got)
        want, i, _ = ref.expression(0, least, 0)
        same(x, tree, want)
        x.need(rest, P.c(ref.n - i), "the number of tokens left over")
    return ob


def leaves_ob(shape):
    def ob(x):
        kinds = choose_kinds(x, shape)
        used = set("+".join(kinds).split("+"))
        right = [x.ctx.choose([False, True]) if "infix%d" % i in used else False for i in range(2)]
        miss = x.ctx.choose(["LeftInfix", "RightInfix", "Prefix", "Postfix"])
        toks = Tokens(x, kinds)
        table, tv = table_of(x, right, miss)
        tree, rest = result(x, x.run("pratt", toks.slice, tv))
        n = x.ctx.norm(rest).const()
        if n is None:
            raise Unknown("number of tokens left over")
        if n and "ends0" not in kinds[len(kinds) - n]:
            x.fail("tokens are left over although none of them ends the formula")
        out = leaves(x, tree, [])
        if len(out) != len(kinds) - n:
            x.fail("the tree has %d tokens for %d tokens of input" % (len(out), len(kinds) - n))
        for k, (g, w) in enumerate(zip(out, toks.ids)):
            x.need(g, w, "token %d of the tree" % k)
    return ob


# roles a token of a real rule set combines: an operand role and an operator role, or an ending
OPERAND = ("none", "atom", "open", "prefix0", "prefix1")
OPERATOR = ("none", "infix0", "infix1", "postfix0", "postfix1")
EVERY = KINDS + ("prefix0+infix0", "atom+infix0", "atom+postfix0", "open+postfix0", "atom+ends0", "atom+ends1", "postfix0+ends1", "prefix0+atom",
                 "infix0+ends1", "infix0+postfix0", "prefix0+ends0", "open+ends1", "infix0+infix1", "prefix0+prefix1")
ROLES = tuple(a + "+" + b for a in OPERAND for b in OPERATOR) + ("ends0", "ends1")


OPR = ("infix0", "infix1", "postfix0", "postfix1")
INF = ("infix0", "infix1")
PRE = ("prefix0", "prefix1")
STUFF = ("none", "atom", "open", "prefix0", "infix0", "postfix0", "ends1")
# longer rows, by the law they are about
CHAINS = [
    ("a chain of two operators", ["atom", OPR, "atom", OPR, "atom"]),
    ("two operators in a row", ["atom", OPR, OPR, "atom"]),
    ("a chain of three infix operators", ["atom", INF, "atom", INF, "atom", INF, "atom"]),
    ("a prefix operator in front of two operators", ["prefix0", "atom", OPR, "atom", OPR]),
    ("prefix operators between infix operators", ["atom", INF, PRE, "atom", INF, "atom"]),
    ("two prefix operators", [PRE, PRE, "atom", OPR, "atom"]),
    ("a group between operators", ["atom", "infix0", "open", "atom", "infix1", "atom", "ends1", OPR, "atom"]),
    ("a group with anything inside", ["open", STUFF, "ends1", ("infix0", "postfix0", "atom")]),
    ("a group that is not closed", ["open", "atom", ("infix0", "ends0", "none", "prefix0"), ("atom", "ends0")]),
    ("nested groups", ["open", "open", "atom", ("infix0", "ends1"), ("atom", "ends1"), ("ends1", "atom")]),
    ("an operator missing between operands", ["atom", INF, "atom", "atom", OPR]),
    ("operands next to each other", ["atom", "atom", ("atom", "prefix0", "infix0"), "atom"]),
    ("unknown tokens among operands", [("none", "atom"), "none", "none", ("atom", "infix0", "prefix0", "postfix0"), "none"]),
    ("the end of the formula after operators", [("atom", "none"), OPR, "ends0", "atom"]),
    ("an ending inside a prefix operand", [PRE, "ends0", ("atom", "infix0")]),
    ("a sign that is infix and prefix", ["atom", "prefix0+infix0", "prefix0+infix0", "atom", ("infix1", "postfix0")]),
    ("a sign used as a prefix first", ["prefix0+infix0", "atom", "prefix0+infix0", "atom"]),
]
DEEP = [
    ("a chain of three operators", ["atom", OPR, "atom", OPR, "atom", OPR, "atom"]),
    ("a chain of four infix operators", ["atom", INF, "atom", INF, "atom", INF, "atom", INF, "atom"]),
    ("prefix operators everywhere", [PRE, "atom", INF, PRE, "atom", INF, "atom"]),
    ("postfix operators after prefix operators", [PRE, PRE, "atom", ("postfix0", "postfix1"), ("postfix0", "infix0", "postfix1"), "atom"]),
    ("groups with two things inside", ["open", STUFF, STUFF, "ends1", ("infix0", "postfix0")]),
    ("five operands next to each other", ["atom"] * 5),
]


def x02(tier):
    big = {"max_paths": 10 ** 6, "budget": 600.0, "unroll": 12}
    out = []
    for n in range(0, 2):
        out.append(Ob("every row of %d tokens with any roles" % n, tree_ob([ROLES] * n), **big))
    for r in ROLES:
        out.append(Ob("%s, then any token" % r, tree_ob([r, ROLES]), **big))
    for nm, shape in CHAINS + (DEEP if tier == "thorough" else []):
        for m in ("LeftInfix", "RightInfix"):
            if m == "RightInfix" and "missing" not in nm and "next to" not in nm and tier != "thorough":
                continue
            out.append(Ob("%s, missing operator %s" % (nm, m), tree_ob(shape, missing=m), **big))
    for k in KINDS:
        out.append(Ob("started above a strength: %s, then any token" % k, tree_ob([k, KINDS], above=True, missing="LeftInfix"), **big))
    out.append(Ob("started above a strength: a chain of two operators", tree_ob(["atom", OPR, "atom", OPR, "atom"], above=True, missing="LeftInfix"), **big))
    if tier == "thorough":
        for k in KINDS:
            for m in ("LeftInfix", "RightInfix"):
                out.append(Ob("%s, then any two tokens, missing operator %s" % (k, m), tree_ob([k, KINDS, KINDS], missing=m), **big))
    return out


def x05(tier):
    big = {"max_paths": 10 ** 6, "budget": 600.0, "unroll": 12}
    out = [Ob("every row of %d tokens with any roles" % n, leaves_ob([EVERY] * n), **big) for n in range(2)]
    for r in EVERY:
        out.append(Ob("%s, then any token" % r, leaves_ob([r, EVERY]), **big))
    for nm, shape in CHAINS + (DEEP if tier == "thorough" else []):
        out.append(Ob(nm, leaves_ob(shape), **big))
    if tier == "thorough":
        for k in KINDS:
            out.append(Ob("%s, then any two tokens" % k, leaves_ob([k, KINDS, KINDS]), **big))
    return out
