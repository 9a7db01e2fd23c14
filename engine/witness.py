"""Smallest concrete instance of an abstract state, so that nothing is reported that the over-approximation
of integers by linear facts merely failed to exclude."""
from .poly import P, ATOMS

LIMIT = 60000


def bounds(p, env, lo, hi):
    """(min, max) of p when the atoms outside env range over lo..hi."""
    a = b = 0
    for m, c in p.t.items():
        x, y = c, c
        l, h = 1, 1
        for t in m:
            v = env.get(t)
            if v is None:
                l *= lo.get(t, 0)
                h *= hi[t]
            else:
                l *= v
                h *= v
        if c >= 0:
            a += c * l
            b += c * h
        else:
            a += c * h
            b += c * l
    return a, b


def find(ctx):
    cons = [p for p in ctx.cons]
    ne = [ctx.norm(p) for p in ctx.ne]
    cons = [p for p in ctx.cons]
    subs = list(ctx.sub.items())
    atoms = set()
    for p in cons + ne:
        atoms |= p.atoms()
    for a, e in subs:
        atoms |= e.atoms()
    for a in ctx.touched:
        if a not in ctx.sub:
            atoms.add(a)
    # index atoms inside keys
    work = list(atoms)
    while work:
        k = ATOMS[work.pop()]
        for b in key_atoms(k):
            if b not in atoms and b not in ctx.sub:
                atoms.add(b)
                work.append(b)
    big = sorted({abs(c) for p in cons + ne for m, c in p.t.items() if not m and abs(c) > 9})
    deg = {a: 0 for a in atoms}
    for p in cons + ne:
        for a in p.atoms():
            deg[a] = deg.get(a, 0) + 1
    for K in (1, 2, 3, 5, 9):
        cand = list(range(K + 1))
        if big:
            cand += sorted({x + d for x in big for d in (-1, 0, 1)} | {b // 2 + 1 for b in big})
        r = search(ctx, cons, ne, subs, sorted(atoms, key=lambda a: -deg.get(a, 0)), cand)
        if r is not None:
            return r
    return None


def key_atoms(k):
    if isinstance(k, P):
        return k.atoms()
    s = set()
    if isinstance(k, tuple):
        for x in k:
            s |= key_atoms(x)
    return s


def search(ctx, cons, ne, subs, atoms, cand):
    env = {}
    hi = {a: max(cand) for a in atoms}
    by = {a: [] for a in atoms}
    for kind, ps in (("ge", cons), ("ne", ne)):
        for p in ps:
            for a in p.atoms():
                by[a].append((kind, p))
    for a, e in subs:
        for b in e.atoms():
            by.setdefault(b, []).append(("ge", e))
    budget = [LIMIT]
    order = order_atoms(atoms, by)

    def ok(a):
        for kind, p in by[a]:
            l, h = bounds(p, env, {}, hi)
            if kind == "ge":
                if h < 0:
                    return False
            elif l == 0 and h == 0:
                return False
        return True

    def go(i):
        budget[0] -= 1
        if budget[0] < 0:
            return False
        if i == len(order):
            return consistent(ctx, env, subs)
        a = order[i]
        for v in cand:
            if ATOMS[a][0] == "bool" and v > 1:
                break
            env[a] = v
            if ok(a) and go(i + 1):
                return True
        env.pop(a, None)
        return False

    if go(0):
        full = dict(env)
        for a, e in subs:
            full[a] = e.eval(env)
        return full
    return None


def order_atoms(atoms, by):
    """Atoms sharing constraints next to each other."""
    left = list(atoms)
    out = []
    seen = set()
    while left:
        best = max(left, key=lambda a: (sum(1 for k, p in by[a] if p.atoms() & seen), len(by[a])))
        left.remove(best)
        out.append(best)
        seen.add(best)
    return out


def consistent(ctx, env, subs):
    full = dict(env)
    for a, e in subs:
        full[a] = e.eval(env)
        if full[a] < 0:
            return False

    def ev(t):
        if isinstance(t, P):
            return t.eval(full)
        if isinstance(t, tuple):
            r = tuple(ev(x) for x in t)
            return canon(r)
        return t

    lcps_done = []
    lcps = []

    def canon(t):
        for _ in range(20):
            if not (len(t) == 3 and t[0] == "at"):
                return t
            for a, la, b, lb, L in lcps_done:
                if t[1] == b and lb <= t[2] < lb + L and (a, la) != (b, lb):
                    t = ("at", a, t[2] - lb + la)
                    break
            else:
                return t
        return t

    for (a, la, b, lb, L) in ctx.lcps:
        try:
            lcps.append((ev(a), la.eval(full), ev(b), lb.eval(full), L.eval(full)))
        except KeyError:
            return False

    lcps_done.extend(lcps)
    try:
        vals = {}
        for a in full:
            k = ATOMS[a]
            if k[0] in ("q", "r"):
                n, w = k[1].eval(full), k[2].eval(full)
                if w < 1 or full[a] != (n // w if k[0] == "q" else n % w):
                    return False
            elif k[0] not in ("fresh", "bv", "it"):
                k = ev(k)
                if vals.setdefault(k, full[a]) != full[a]:
                    return False
        vs = {}
        for t, v in ctx.variants.items():
            k = ev(t)
            if vs.setdefault(k, v) != v:
                return False
        for a, b in ctx.neqs:
            if hasattr(a, "term") and hasattr(b, "term") and ev(a.term) == ev(b.term):
                return False
    except KeyError:
        return False
    return True
