"""Entailment in the domain of convex polyhedra, by a certificate.

A constraint is (terms, c): sum(terms[a] * a) + c >= 0 over integer atoms.
entails(facts, goal) looks for non-negative multipliers with
    sum(l_i * fact_i) + slack == goal,  slack >= 0
(Farkas), in exact rational arithmetic.
"""
from fractions import Fraction as Q


def add(a, b, k=1):
    t = dict(a[0])
    for x, c in b[0].items():
        n = t.get(x, 0) + k * c
        if n: t[x] = n
        else: t.pop(x, None)
    return t, a[1] + k * b[1]


def scale(a, k):
    return ({x: c * k for x, c in a[0].items()}, a[1] * k) if k else ({}, 0)


def const(c): return {}, c


def entails(facts, goal):
    terms, gc = goal
    if not terms: 
        if gc >= 0: return True
    # facts connected with the goal; with a constant goal look for a contradiction
    live = set(terms); use = []; rest = list(facts)
    if not terms:
        use = rest
        for t, c in use: live |= set(t)
    else:
        ch = True
        while ch:
            ch = False; keep = []
            for f in rest:
                if any(a in live for a in f[0]):
                    use.append(f); live |= set(f[0]); ch = True
                else: keep.append(f)
            rest = keep
    uniq = {}
    for t, c in use:
        k = frozenset(t.items())
        if k not in uniq or uniq[k] > c: uniq[k] = c
    use = [(dict(k), c) for k, c in uniq.items() if k]
    atoms = sorted(live, key=repr)
    # rows: one per atom (equality), one for the constant: sum l_i c_i + s = gc
    n = len(use) + 1; m = len(atoms) + 1
    row = {a: i for i, a in enumerate(atoms)}
    A = [[Q(0)] * n for _ in range(m)]; b = [Q(0)] * m
    for j, (t, c) in enumerate(use):
        for a, k in t.items(): A[row[a]][j] = Q(k)
        A[m - 1][j] = Q(c)
    A[m - 1][n - 1] = Q(1)
    for a, k in terms.items(): b[row[a]] = Q(k)
    b[m - 1] = Q(gc)
    return feasible(A, b)


def feasible(A, b):
    """is there x >= 0 with A x = b (phase one of the simplex method, Bland's rule)"""
    m = len(A); n = len(A[0])
    T = []
    for i in range(m):
        s = -1 if b[i] < 0 else 1
        T.append({j: s * v for j, v in enumerate(A[i]) if v}); T[-1][-1] = s * b[i]
    basis = [n + i for i in range(m)]
    z = {}
    for r in T:
        for j, v in r.items(): z[j] = z.get(j, Q(0)) + v
    it = 0
    while True:
        if z.get(-1, 0) == 0: return True
        j = min((j for j, v in z.items() if j >= 0 and v > 0), default=None)
        if j is None: return False
        it += 1
        if it > 4000: return False
        best = None
        for i in range(m):
            v = T[i].get(j)
            if v is not None and v > 0:
                q = T[i].get(-1, Q(0)) / v
                if best is None or (q, basis[i]) < best[0]: best = ((q, basis[i]), i)
        if best is None: return False
        i = best[1]; r = T[i]; v = r[j]
        if v != 1:
            for k in r: r[k] /= v
        for o in T + [z]:
            if o is r: continue
            w = o.get(j)
            if w:
                for k, x in r.items():
                    y = o.get(k, 0) - w * x
                    if y: o[k] = y
                    else: o.pop(k, None)
        basis[i] = j
