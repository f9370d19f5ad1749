"""Linear expressions over SSA values of one function: value -> ({leaf: coeff}, const)."""


def leafkey(f, o, seen=()):
    """Structural key of a non-linear leaf, so that reloads of the same place compare equal."""
    d = f.defn(o)
    if d is None:
        return repr(o)
    if d.op in ('load',):
        return ('load', d.ty, addrkey(f, d.ops[0], seen + (d.id,))) if d.id not in seen and len(seen) < 8 else '%%%d' % d.id
    if d.op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
        return leafkey(f, d.ops[0], seen)
    return '%%%d' % d.id


def addrkey(f, o, seen=()):
    d = f.defn(o)
    if d is not None and d.op == 'gep':
        return ('gep', addrkey(f, d.x['b'], seen), d.x['o'], tuple((str(lin(f, v[0] if isinstance(v, (list, tuple)) else v)), str(v[1:]) if isinstance(v, (list, tuple)) else '') for v in d.x['v']))
    return leafkey(f, o, seen)


def add(a, b, k=1):
    t = dict(a[0])
    for x, c in b[0].items():
        t[x] = t.get(x, 0) + k * c
        if not t[x]: del t[x]
    return t, a[1] + k * b[1]


def lin(f, o, depth=0):
    if isinstance(o, int): return {}, o
    if o == 'null': return {}, 0
    d = f.defn(o)
    if d is None or depth > 20: return {('v', repr(o)): 1}, 0
    if d.op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
        return lin(f, d.ops[0], depth + 1)
    if d.op in ('add', 'sub') and len(d.ops) == 2:
        return add(lin(f, d.ops[0], depth + 1), lin(f, d.ops[1], depth + 1), 1 if d.op == 'add' else -1)
    if d.op == 'mul' and isinstance(d.ops[1], int):
        t, c = lin(f, d.ops[0], depth + 1)
        return {k: v * d.ops[1] for k, v in t.items()}, c * d.ops[1]
    if d.op == 'shl' and isinstance(d.ops[1], int):
        t, c = lin(f, d.ops[0], depth + 1); m = 1 << d.ops[1]
        return {k: v * m for k, v in t.items()}, c * m
    if d.op == 'gep':
        r = lin(f, d.x['b'], depth + 1); r = (dict(r[0]), r[1] + d.x['o'])
        for v in d.x['v']:
            idx, sc = v[0], v[1]
            t, c = lin(f, idx, depth + 1)
            r = add(r, (t, c), sc)
        return r
    return {('k', leafkey(f, o)): 1}, 0


def diff(f, a, b):
    """a - b as a constant, or None."""
    t, c = add(lin(f, a), lin(f, b), -1)
    return c if not t else None
