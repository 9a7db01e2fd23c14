"""Emptiness of a polyhedron {x >= 0 : every constraint >= 0} over the rationals, exactly.

Constraints are polynomials; every non-linear monomial is treated as one more non-negative
variable, and products of a constraint with an atom are added when they only mention monomials
that occur already (so that e.g. q <= h-1 implies q*w <= h*w - w).
"""
from fractions import Fraction
from math import gcd
from .poly import P

_cache = {}


def tighten(p):
    """Divide by the gcd of the non-constant coefficients and round the constant down."""
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
    if g > 1:
        t = {m: c // g for m, c in p.t.items()}      # floor division also rounds the constant
        t = {m: c for m, c in t.items() if c}
        return P(t)
    return p


def factor(p, pos=()):
    """a*Y >= c with c >= 1 over the non-negative integers gives Y >= 1; a*Y >= 0 and a >= 1 gives Y >= 0."""
    k = p.t.get((), 0)
    if k > 0 or p.degree() < 2:
        return None
    common = None
    for m, c in p.t.items():
        if m and (len(m) > 1 or c > 0):
            common = set(m) if common is None else common & set(m)
            if not common:
                return None
    # what is subtracted can be left out: a*Y >= b + c gives a*Y >= c
    all_ = {v for v in common if all(v in m for m in p.t if m)}
    if all_:
        common = all_
    else:
        v = min(common)
        p, common = P({m: c for m, c in p.t.items() if not m or v in m}), {v}
    if k == 0:
        common &= pos
        if not common:
            return None
    a = min(common)
    t = {(): -1 if k else 0}
    for m, c in p.t.items():
        if m:
            m = list(m)
            m.remove(a)
            t[tuple(m)] = t.get(tuple(m), 0) + c
    return P({m: c for m, c in t.items() if c})


def factors(cons):
    """Consequences of single constraints and of sums of two in which every product shares a factor."""
    out = []
    nl = [p for p in cons if p.degree() > 1]
    if not nl:
        return []
    pos = {m[0] for p in cons if len(p.t) == 2 and p.t.get((), 0) < 0 for m, c in p.t.items() if len(m) == 1 and c > 0}
    for p in nl:
        q = factor(p, pos)
        if q is not None:
            out.append(q)
    for i, p in enumerate(nl):
        lin = [(m, c) for m, c in p.t.items() if len(m) == 1]
        if not lin:
            continue
        for q in cons:
            if q is p:
                continue
            if any(q.t.get(m, 0) == -c for m, c in lin):
                r = factor(p + q, pos)
                if r is not None:
                    out.append(r)
    return out


def products(cons):
    monos = set()
    for p in cons:
        for m in p.t:
            if len(m) > 1:
                monos.add(m)
    if not monos:
        return []
    atoms = sorted({a for m in monos for a in m})
    out = []
    for p in cons:
        if p.degree() > 1:
            continue
        for a in atoms:
            q = p * P.a(a)
            if all(len(m) <= 1 or m in monos for m in q.t):
                out.append(q)
    # products of two constraints p*q >= 0
    lin = [p for p in cons if p.degree() == 1]
    if len(lin) <= 14:
        for i, p in enumerate(lin):
            for q in lin[i:]:
                r = p * q
                if r.degree() > 1 and all(len(m) <= 1 or m in monos for m in r.t):
                    out.append(r)
    return out


def feasible(cons):
    """cons: iterable of P, each meaning >= 0.  False only if there is certainly no solution."""
    key = frozenset(cons)
    r = _cache.get(key)
    if r is None:
        r = _feasible(key)
        _cache[key] = r
    return r


def _feasible(key):
    cons = []
    seen = set()
    for p in key:
        c = p.const()
        if c is not None:
            if c < 0:
                return False
            continue
        p = tighten(p)
        if all(v >= 0 for v in p.t.values()):
            continue
        if all(v <= 0 for v in p.t.values()) and p.t.get((), 0) < 0:
            return False
        if p not in seen:
            seen.add(p)
            cons.append(p)
    if not cons:
        return True
    for q in factors(cons) + products(cons):
        if q not in seen and not all(v >= 0 for v in q.t.values()):
            seen.add(q)
            cons.append(q)
    # only constraints connected to a constraint that is violated at x = 0 matter
    if all(p.t.get((), 0) >= 0 for p in cons):
        return True
    return _simplex(cons)


def _simplex(cons):
    monos = sorted({m for p in cons for m in p.t if m})
    idx = {m: i for i, m in enumerate(monos)}
    n = len(monos)
    # dictionary rows: basic var -> (const, {nonbasic var: coeff}); variables 0..n-1 original, n.. slacks
    rows = {}
    for k, p in enumerate(cons):
        rows[n + k] = [Fraction(p.t.get((), 0)), {idx[m]: Fraction(c) for m, c in p.t.items() if m}]
    for _ in range(5000):
        leave = None
        for b in rows:
            if rows[b][0] < 0 and (leave is None or b < leave):
                leave = b
        if leave is None:
            return True
        const, co = rows[leave]
        enter = None
        for j, c in co.items():
            if c > 0 and (enter is None or j < enter):
                enter = j
        if enter is None:
            return False
        # enter = (leave - const - sum others) / c
        c = co[enter]
        inv = 1 / c
        nc = -const * inv
        nco = {j: -v * inv for j, v in co.items() if j != enter}
        nco[leave] = inv
        del rows[leave]
        for b, row in rows.items():
            k = row[1].pop(enter, None)
            if k:
                row[0] += k * nc
                d = row[1]
                for j, v in nco.items():
                    x = d.get(j, 0) + k * v
                    if x:
                        d[j] = x
                    else:
                        d.pop(j, None)
        rows[enter] = [nc, nco]
    return True  # give up: not known to be empty
