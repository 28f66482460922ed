"""Linear terms over named atoms, with a flag for unknown contributions, and Fourier-Motzkin entailment.

A term is ('i', const, ((atom, coef), ...sorted), o) with o in '', 'P' (plus something >= 0),
'N' (minus something >= 0), '?' (plus anything)."""
from functools import lru_cache


def mk(c, atoms=(), o=""):
    return ("i", c, tuple(sorted((a, k) for a, k in atoms if k)), o)


ZERO = mk(0)


def K(c):
    return ("i", c, (), "")


def A(a, k=1):
    return ("i", 0, ((a, k),), "")


def oadd(a, b):
    if not a:
        return b
    if not b or a == b:
        return a
    return "?"


def oneg(o):
    return {"": "", "P": "N", "N": "P", "?": "?"}[o]


def add(x, y):
    d = dict(x[2])
    for a, k in y[2]:
        d[a] = d.get(a, 0) + k
    return mk(x[1] + y[1], d.items(), oadd(x[3], y[3]))


def scale(x, k):
    if k == 0:
        return ZERO
    return mk(x[1] * k, [(a, c * k) for a, c in x[2]], x[3] if k > 0 else oneg(x[3]))


def sub(x, y):
    return add(x, scale(y, -1))


def drop(x):
    return ("i", x[1], x[2], "")


def divex(x, k):
    """x / k when every coefficient divides, else None"""
    if x[1] % k or any(c % k for _, c in x[2]):
        return None
    return mk(x[1] // k, [(a, c // k) for a, c in x[2]], x[3] if k > 0 else oneg(x[3]))


def isconst(x):
    return not x[2] and not x[3]


def coef(x, a):
    for b, k in x[2]:
        if b == a:
            return k
    return 0


# constraints: (const, ((atom, coef),...)) meaning const + sum >= 0
def cons(x):
    return (x[1], x[2])


def _norm(c, at):
    from math import gcd
    g = 0
    for _, k in at:
        g = gcd(g, k)
    if g > 1:
        c = c // g if c % g == 0 else (c - (c % g)) // g
        at = tuple((a, k // g) for a, k in at)
    return (c, at)


def elim(cs, a):
    pos, neg, rest = [], [], []
    for c in cs:
        k = 0
        for b, kk in c[1]:
            if b == a:
                k = kk
        (pos if k > 0 else neg if k < 0 else rest).append((c, k))
    out = {c for c, _ in rest}
    for p, kp in pos:
        for n, kn in neg:
            d = {}
            for b, kk in p[1]:
                d[b] = d.get(b, 0) + kk * (-kn)
            for b, kk in n[1]:
                d[b] = d.get(b, 0) + kk * kp
            d.pop(a, None)
            at = tuple(sorted((b, kk) for b, kk in d.items() if kk))
            c = _norm(p[0] * (-kn) + n[0] * kp, at)
            if not c[1] and c[0] >= 0:
                continue
            out.add(c)
    return out


@lru_cache(maxsize=200000)
def infeasible(cs):
    cs = set(cs)
    for c in cs:
        if not c[1] and c[0] < 0:
            return True
    atoms = sorted({b for c in cs for b, _ in c[1]})
    while atoms:
        best = min(atoms, key=lambda a: sum(1 for c in cs for b, k in c[1] if b == a and k > 0) * sum(1 for c in cs for b, k in c[1] if b == a and k < 0))
        atoms.remove(best)
        cs = elim(cs, best)
        for c in cs:
            if not c[1] and c[0] < 0:
                return True
        if len(cs) > 400:
            return False
    return False


def entails(facts, x):
    """facts |= x >= 0 (x without flag considered as is)"""
    if not x[2]:
        return x[1] >= 0
    if x[1] >= 0 and all(k >= 0 for _, k in x[2]):
        return True                 # every atom is >= 0
    neg = scale(x, -1)
    base = set(facts)
    base.add((neg[1] - 1, neg[2]))
    # only what can matter
    want = {b for b, _ in x[2]}
    while True:
        n = set(want)
        for c in base:
            if any(b in want for b, _ in c[1]):
                n |= {b for b, _ in c[1]}
        if n == want:
            break
        want = n
    cs = {c for c in base if not c[1] or any(b in want for b, _ in c[1])}
    for b in want:
        cs.add((0, ((b, 1),)))
    return infeasible(frozenset(cs))
