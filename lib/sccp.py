"""Conditional constant propagation of one function under assumptions.

run(f, assume) with assume {ssa id: integer} gives (values, edges): the SSA
values that are constant, and the control-flow edges that can be taken.
"""
T = 'T'      # not a constant


def _wrap(v, w): return v & ((1 << w) - 1)
def _sg(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v
def width(t):
    return int(t[1:]) if isinstance(t, str) and t[:1] == 'i' and t[1:].isdigit() else None


class SCCP:
    def __init__(self, f, assume):
        self.f = f; self.val = dict(assume); self.fixed = set(assume); self.edges = set(); self.blocks = set()
        self.run()

    def ty(self, o):
        d = self.f.defn(o)
        if d is not None: return d.ty
        k = self.f.param(o)
        return self.f.params[k] if k is not None else None

    def get(self, o):
        if isinstance(o, bool): return int(o)
        if isinstance(o, int): return o
        if o in ('null', 'undef', 'poison'): return 0 if o == 'null' else T
        if isinstance(o, str) and o[:1] == '%':
            k = int(o[1:])
            if k in self.val: return self.val[k]
            return T if k < len(self.f.params) else None
        return T

    def ev(self, i):
        f = self.f
        if i.op == 'phi':
            r = None
            for pb, o in zip(i.x, i.ops):
                if (pb, i.bb) not in self.edges: continue
                v = self.get(o)
                if v is None: continue
                if r is None: r = v
                elif r != v: return T
            return r
        if i.op == 'icmp':
            a, b = (self.get(o) for o in i.ops)
            if a is None or b is None: return None
            if a == T or b == T: return T
            w = width(self.ty(i.ops[0]) or '') or width(self.ty(i.ops[1]) or '') or 64
            p = i.x
            if p in ('eq', 'ne'): return int((_wrap(a, w) == _wrap(b, w)) == (p == 'eq'))
            fn = _sg if p[0] == 's' else _wrap
            a, b = fn(a, w), fn(b, w)
            return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p[1:]])
        if i.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = (self.get(o) for o in i.ops)
            if a == 0 and i.op == 'and' or b == 0 and i.op == 'and': return 0
            if a is None or b is None: return None
            if a == T or b == T: return T
            w = width(i.ty) or 64
            a = _wrap(a, w); b = _wrap(b, w)
            v = {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b,
                 'shl': a << (b & 127), 'lshr': a >> (b & 127), 'ashr': _sg(a, w) >> (b & 127)}[i.op]
            return _sg(v, w) if w > 1 else _wrap(v, w)
        if i.op in ('sext', 'zext', 'trunc', 'freeze'):
            a = self.get(i.ops[0])
            if a is None or a == T: return a
            sw = width(self.ty(i.ops[0]) or '') or 64; w = width(i.ty) or 64
            a = _sg(a, sw) if i.op == 'sext' else _wrap(a, sw) if i.op == 'zext' else a
            return _sg(a, w) if w > 1 else _wrap(a, w)
        if i.op == 'select':
            c = self.get(i.ops[0])
            if c is None: return None
            a, b = self.get(i.ops[1]), self.get(i.ops[2])
            if c == T: return a if a == b else T
            return a if c else b
        return T

    def targets(self, t):
        if t.op == 'br' and len(t.ops) == 3:
            c = self.get(t.ops[0])
            if c is None: return []
            s = t.succ()
            return s if c == T else [s[0] if c else s[1]]
        if t.op == 'switch':
            # ops: value, default bb, then (const, bb) pairs
            c = self.get(t.ops[0])
            if c is None: return []
            if c == T: return t.succ()
            w = width(self.ty(t.ops[0]) or '') or 32
            r = t.ops[2:]
            for k in range(0, len(r) - 1, 2):
                if _wrap(r[k], w) == _wrap(c, w): return [r[k + 1]['bb']]
            return [t.ops[1]['bb']]
        return t.succ()

    def run(self):
        f = self.f
        self.blocks.add(0)
        ch = True
        while ch:
            ch = False
            for b in f.rpo():
                if b not in self.blocks: continue
                for i in f.blocks[b]:
                    if i.id in self.fixed: continue
                    v = self.ev(i)
                    o = self.val.get(i.id)
                    if o == T: v = T
                    elif o is not None and v is not None and v != o: v = T
                    if v is not None and v != o: self.val[i.id] = v; ch = True
                for s in self.targets(f.term(b)):
                    if (b, s) not in self.edges: self.edges.add((b, s)); ch = True
                    if s not in self.blocks: self.blocks.add(s); ch = True
