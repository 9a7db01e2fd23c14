"""Integer polynomials over interned, non-negative atoms.

An atom is the abstract name of one machine integer the analysed code can depend on (a length, a
field of an argument, a loop counter, a quotient ...).  Atoms are interned by a structural key, so
the same quantity has the same atom on every path and in every run.
"""

ATOMS = []          # id -> key
_IDS = {}           # key -> id


def atom_id(key):
    i = _IDS.get(key)
    if i is None:
        i = len(ATOMS)
        _IDS[key] = i
        ATOMS.append(key)
    return i


class P:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None

    @staticmethod
    def c(n):
        return P({(): n}) if n else ZERO

    @staticmethod
    def a(i):
        return P({(i,): 1})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, int):
            o = P.c(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return P(t)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            o = P.c(o)
        return self + (-o)

    def __rsub__(self, o):
        return P.c(o) - self

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return ZERO
            return P({m: c * o for m, c in self.t.items()})
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n)) if m and n else (m or n)
                v = t.get(k, 0) + c * d
                if v:
                    t[k] = v
                else:
                    t.pop(k, None)
        return P(t)

    __rmul__ = __mul__

    def const(self):
        """The integer this polynomial is, or None."""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    def subst(self, mp):
        """Replace atoms (id -> P)."""
        if not any(a in mp for m in self.t for a in m):
            return self
        r = ZERO
        for m, c in self.t.items():
            term = P.c(c)
            for a in m:
                term = term * mp.get(a, P.a(a))
            r = r + term
        return r

    def eval(self, env):
        s = 0
        for m, c in self.t.items():
            v = c
            for a in m:
                v *= env[a]
            s += v
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]) == 0, x[0])):
            n = "*".join(atom_name(a) for a in m)
            if not m:
                out.append("%+d" % c)
            elif c == 1:
                out.append("+" + n)
            elif c == -1:
                out.append("-" + n)
            else:
                out.append("%+d*%s" % (c, n))
        s = "".join(out)
        return s[1:] if s[0] == "+" else s


ZERO = P({})
ONE = P({(): 1})


def term_name(t):
    """Readable rendering of a term (see values.py)."""
    if isinstance(t, P):
        return repr(t)
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if k == "in":
        return t[1]
    if k == "f":
        return "%s.%s" % (term_name(t[1]), t[2])
    if k == "vf":
        return "%s.%s" % (term_name(t[1]), t[3])
    if k == "d":
        return term_name(t[1])
    if k == "at":
        return "%s[%s]" % (term_name(t[1]), term_name(t[2]))
    if k == "len":
        return "len(%s)" % term_name(t[1])
    if k == "int":
        return term_name(t[1])
    if k == "bv":
        return "j%d" % t[1]
    if k == "lcp":
        return "common(%s,%s)" % (term_name(t[1]), term_name(t[2]))
    if k in ("q", "r"):
        return "(%s %s %s)" % (term_name(t[1]), "/" if k == "q" else "%", term_name(t[2]))
    if k == "rec":
        return "walk^%s(%s)" % (term_name(t[3]), term_name(t[1]))
    return "%s(%s)" % (k, ",".join(term_name(x) for x in t[1:])[:60])


def atom_name(i):
    return term_name(ATOMS[i])
