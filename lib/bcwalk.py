"""Effect of every bytecode on the loop-carried variables of a bytecode walker.

A walker is a loop whose body dispatches on the bytecode with the generated
switch (hundreds of cases: the 256 bytecodes, and the numbers above 255 with
which an action comes back to continue a superoperator).  For each of the 256
bytecodes, the paths from the loop header through the cases of that bytecode to
the next iteration are followed with linear expressions over the values at the
header; branches on constants are decided, the others are followed both ways.
"""
from cfront import AnalysisBroken

MANY = 300


def lin(t=None, c=0): return (frozenset((t or {}).items()), c)
def const(c): return (frozenset(), c)
def sym(*k): return (frozenset({(k, 1)}), 0)


def add(a, b, k=1):
    t = dict(a[0])
    for x, c in b[0]:
        t[x] = t.get(x, 0) + k * c
        if not t[x]: del t[x]
    return frozenset(t.items()), a[1] + k * b[1]


def scale(a, k):
    return (frozenset((x, c * k) for x, c in a[0]), a[1] * k) if k else const(0)


def width(t):
    return int(t[1:]) if isinstance(t, str) and t[:1] == 'i' and t[1:].isdigit() else 64


def walkers(f):
    """the big dispatching switches of f, in the order of the source"""
    out = [t for b in range(len(f.blocks)) for t in [f.term(b)] if t.op == 'switch' and len(t.ops) > 2 * MANY]
    return sorted(out, key=lambda t: t.line)


class Walk:
    def __init__(self, f, sw):
        self.f = f; self.sw = sw
        # innermost natural loop whose body loads the opcode for this switch: the header
        # dominates the switch and is the target of a back edge from a block that it dominates
        idom = f.dominators()
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0 or b not in idom: return False
                b = idom[b]
        reach = self.reachable(sw.bb)
        # the switch itself heads an inner loop (continuing a superoperator, extension bytes): the header
        # wanted is the closest one beyond the blocks which dispatch without reading a new opcode
        heads = []
        for h in range(len(f.blocks)):
            latches = [p for p in f.preds[h] if p in idom and dom(h, p)]
            if latches and dom(h, sw.bb) and any(l in reach for l in latches): heads.append(h)
        heads = sorted(heads, key=lambda h: sum(dom(x, h) for x in tuple(heads)), reverse=True)
        self.heads = heads
        self.head = None
        for h in heads:
            if any(i.op == 'phi' for i in f.blocks[h]) and h != sw.bb and not self.restart(h):
                self.head = h; break
        if self.head is None: raise AnalysisBroken('no loop around the bytecode switch of %s' % f.name)
        self.phis = [i for i in f.blocks[self.head] if i.op == 'phi']

    def reachable(self, b):
        seen = {b}; todo = [b]
        while todo:
            for s in self.f.succs(todo.pop()):
                if s not in seen: seen.add(s); todo.append(s)
        return seen

    def restart(self, h):
        """h only reads the next opcode: reached again from an extension bytecode"""
        f = self.f
        # straight line from h to the switch, and the switch can come back to h without passing another head
        b = h; n = 0
        while b != self.sw.bb and n < 4:
            s = f.succs(b)
            if len(s) != 1: return False
            b = s[0]; n += 1
        if b != self.sw.bb: return False
        case = self.target(55)
        n = 0
        while case not in (h, self.sw.bb) and n < 4:
            s = f.succs(case)
            if len(s) != 1: return False
            case = s[0]; n += 1
        return case == h

    def target(self, k):
        o = self.sw.ops
        for j in range(2, len(o) - 1, 2):
            if o[j] == k: return o[j + 1]['bb']
        return o[1]['bb']

    # -- evaluation
    def val(self, env, o):
        if isinstance(o, bool): return const(int(o))
        if isinstance(o, int): return const(o)
        if o == 'null': return const(0)
        if isinstance(o, str) and o[:1] == '%':
            k = int(o[1:])
            return env.get(k, sym('v', k))
        if isinstance(o, dict):
            if 'g' in o and len(o) == 1: return sym('g', o['g'])
            if o.get('ce') == 'gep' and not o['gep']['v']: return add(self.val(env, o['gep']['b']), const(o['gep']['o']))
        return sym('c', repr(o))

    def ev(self, env, i):
        op = i.op
        if op in ('add', 'sub'): return add(self.val(env, i.ops[0]), self.val(env, i.ops[1]), 1 if op == 'add' else -1)
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            v = self.val(env, i.ops[0])
            if op == 'zext' and not v[0] and v[1] < 0:
                d = self.f.defn(i.ops[0]); return const(v[1] & ((1 << width(d.ty if d else 'i32')) - 1))
            return v
        if op in ('mul', 'shl', 'and', 'or', 'lshr', 'ashr', 'sdiv', 'udiv', 'xor'):
            a, b = (self.val(env, x) for x in i.ops)
            ca, cb = (None if x[0] else x[1] for x in (a, b))
            if ca is not None and cb is not None:
                return const({'mul': lambda: ca * cb, 'shl': lambda: ca << (cb & 63), 'and': lambda: ca & cb, 'or': lambda: ca | cb,
                              'lshr': lambda: ca >> (cb & 63), 'ashr': lambda: ca >> (cb & 63), 'xor': lambda: ca ^ cb,
                              'sdiv': lambda: ca // cb if cb else 0, 'udiv': lambda: ca // cb if cb else 0}[op]())
            if op == 'mul' and cb is not None: return scale(a, cb)
            if op == 'mul' and ca is not None: return scale(b, ca)
            if op == 'shl' and cb is not None: return scale(a, 1 << cb)
            if op in ('or', 'xor') and ca == 0: return b
            if op in ('or', 'xor') and cb == 0: return a
            if op == 'and' and (ca == 0 or cb == 0): return const(0)
            if op in ('sdiv', 'udiv', 'ashr', 'lshr') and cb is not None:
                k = cb if op in ('sdiv', 'udiv') else 1 << cb
                if k and a[1] % k == 0 and all(c % k == 0 for _, c in a[0]):
                    return frozenset((x, c // k) for x, c in a[0]), a[1] // k
                if k: return sym('div', a, k)
            return sym(op, a, b)
        if op == 'gep':
            r = add(self.val(env, i.x['b']), const(i.x['o']))
            for v in i.x['v']: r = add(r, scale(self.val(env, v[0]), v[1]))
            return r
        if op == 'load':
            key = ('ld', i.ty, self.val(env, i.ops[0]))
            return const(self.known[key]) if key in self.known else sym(*key)
        if op == 'icmp':
            a, b = (self.val(env, x) for x in i.ops)
            d = add(a, b, -1)
            if not d[0] and i.x in ('eq', 'ne'): return const(int((d[1] == 0) == (i.x == 'eq')))
            if not a[0] and not b[0]:
                x, y = a[1], b[1]
                return const(int({'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[i.x[1:]]))
            return sym('v', i.id)
        if op == 'select':
            c = self.val(env, i.ops[0])
            if not c[0]: return self.val(env, i.ops[1] if c[1] else i.ops[2])
            a, b = self.val(env, i.ops[1]), self.val(env, i.ops[2])
            return a if a == b else sym('v', i.id)
        return sym('v', i.id)

    def effects(self, k, limit=4000, init=None, operand=None):
        """[(kind, {phi id: new value}, [(instr, value)])] of bytecode k; kind is 'next' (the next
        iteration), 'leave' (out of the loop), 'restart' (another opcode is read), 'error' (returns).
        init: {phi: value at the header}; operand: (phi of the bytecode pointer, value of the operand byte)"""
        f = self.f; sw = self.sw; out = []
        env0 = {i.id: sym('phi', i.id) for i in self.phis}
        if init: env0.update(init)
        self.known = {('ld', 'i8', add(sym('phi', operand[0]), const(1))): operand[1]} if operand else {}
        todo = [(self.head, None, env0, frozenset(), (), False)]
        n = 0
        while todo:
            n += 1
            if n > limit: raise AnalysisBroken('too many paths for bytecode %d in %s' % (k, f.name))
            b, prev, env, seen, obs, started = todo.pop()
            env = dict(env); obs = list(obs)
            new = {}
            for i in f.blocks[b]:
                if i.op != 'phi': break
                if b == self.head and prev is None: continue
                for pb, o in zip(i.x, i.ops):
                    if pb == prev: new[i.id] = self.val(env, o)
            env.update(new)
            dead = False
            for i in f.blocks[b]:
                if i.op == 'phi' or i is f.term(b): continue
                if i.op == 'call':
                    obs.append((i, tuple(self.val(env, o) for o in i.ops)))
                    if i.callee in ('abort', '__assert_fail'): dead = True; break
                    env[i.id] = sym('v', i.id); continue
                if i.op == 'store': obs.append((i, (self.val(env, i.ops[0]), self.val(env, i.ops[1])))); continue
                if i.op == 'icmp': obs.append((i, tuple(self.val(env, o) for o in i.ops)))
                env[i.id] = self.ev(env, i)
            if dead: continue
            t = f.term(b)
            if t.op == 'ret': out.append(('error', {}, obs, t)); continue
            if t.op == 'unreachable': continue
            if t is sw:
                v = self.val(env, t.ops[0])
                if not v[0]: succ = [self.target(v[1])]
                elif not started: succ = [self.target(k)]; started = True
                else: out.append(('restart', {}, obs, t)); continue
            elif t.op == 'br' and len(t.ops) == 3:
                v = self.val(env, t.ops[0]); s = t.succ()
                succ = s if v[0] else [s[0] if v[1] else s[1]]
            elif t.op == 'switch':
                v = self.val(env, t.ops[0])
                if v[0]: succ = list(dict.fromkeys(t.succ()))
                else:
                    o = t.ops; succ = [o[1]['bb']]
                    for j in range(2, len(o) - 1, 2):
                        if o[j] == v[1]: succ = [o[j + 1]['bb']]
            else: succ = f.succs(b)
            if started and self.head in succ:
                nv = {}
                for i in self.phis:
                    for pb, o in zip(i.x, i.ops):
                        if pb == b: nv[i.id] = self.val(env, o)
                out.append(('next', nv, obs, t)); continue
            for s in succ:
                if (b, s) in seen and s != sw.bb: continue
                todo.append((s, b, env, frozenset() if t is sw else seen | {(b, s)}, tuple(obs), started))
        return out


class Straight(Walk):
    """the same for a function that decodes one bytecode without a loop: the first parameter points to it;
    'leave' when the function returns"""
    def __init__(self, f, sw):
        self.f = f; self.sw = sw; self.head = 0; self.phis = []; self.known = {}

    def effects(self, k, limit=8000):
        f = self.f; sw = self.sw; out = []
        env0 = {j: sym('param', j) for j in range(len(f.params))}
        todo = [(0, None, env0, frozenset(), (), False)]
        n = 0
        while todo:
            n += 1
            if n > limit: raise AnalysisBroken('too many paths for bytecode %d in %s' % (k, f.name))
            b, prev, env, seen, obs, started = todo.pop()
            env = dict(env); obs = list(obs); new = {}
            for i in f.blocks[b]:
                if i.op != 'phi': break
                for pb, o in zip(i.x, i.ops):
                    if pb == prev: new[i.id] = self.val(env, o)
            env.update(new)
            dead = False
            t = f.term(b)
            for i in f.blocks[b]:
                if i.op == 'phi' or i is t: continue
                if i.op == 'call':
                    obs.append((i, tuple(self.val(env, o) for o in i.ops)))
                    if i.callee in ('abort', '__assert_fail'): dead = True; break
                    env[i.id] = sym('v', i.id); continue
                if i.op == 'store': continue
                env[i.id] = self.ev(env, i)
            if dead or t.op == 'unreachable': continue
            if t.op == 'ret': out.append(('leave', {}, obs, t)); continue
            if t is sw:
                v = self.val(env, t.ops[0])
                if not v[0]: succ = [self.target(v[1])]
                elif not started: succ = [self.target(k)]; started = True
                else: continue
            elif t.op == 'br' and len(t.ops) == 3:
                v = self.val(env, t.ops[0]); s = t.succ()
                succ = s if v[0] else [s[0] if v[1] else s[1]]
            elif t.op == 'switch':
                v = self.val(env, t.ops[0])
                if v[0]: succ = list(dict.fromkeys(t.succ()))
                else:
                    o = t.ops; succ = [o[1]['bb']]
                    for j in range(2, len(o) - 1, 2):
                        if o[j] == v[1]: succ = [o[j + 1]['bb']]
            else: succ = f.succs(b)
            for s in succ:
                if (b, s) in seen and s != sw.bb: continue
                todo.append((s, b, env, frozenset() if t is sw else seen | {(b, s)}, tuple(obs), started))
        return out
