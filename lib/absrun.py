"""Path enumeration over the IR of one function (and the callees a client asks
to follow) with the integers and flags that are known tracked exactly, and
everything else unknown.  An unknown integer that a loop bound or a test
compares with a known one is followed for the values 0..2, so that the number of
rounds of related loops agree.  Clients supply models of the calls and loads
they care about and keep their own state next to the path's.
"""
from cfront import AnalysisBroken

MASK = (1 << 64) - 1
REL = {'slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge'}


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def cmp(pred, x, y):
    ux, uy = x & MASK, y & MASK
    return {'eq': x == y, 'ne': x != y, 'sgt': x > y, 'sge': x >= y, 'slt': x < y, 'sle': x <= y,
            'ugt': ux > uy, 'uge': ux >= uy, 'ult': ux < uy, 'ule': ux <= uy}[pred]


class Model:
    """what a client overrides"""
    def call(self, f, i, args, mem, state):
        """None: unknown result and no effect; 'follow'; or [(result, mem, state)]"""
        return None

    def load(self, f, i, addr, mem, state):
        """None: default; or a value in a 1-tuple"""
        return None

    def value(self, f, i, env):
        """None: default; or a value in a 1-tuple (any instruction)"""
        return None

    def store(self, f, i, addr, v, mem, state):
        """None: default; or (mem, state)"""
        return None

    def ret(self, f, v, mem, state):
        pass


class AbsRun:
    def __init__(self, prog, model, limit=60000):
        self.p = prog; self.m = model; self.limit = limit; self.steps = 0; self._live = {}

    def live(self, f):
        if f.name in self._live: return self._live[f.name]
        n = len(f.blocks)
        def ids(o, out):
            if isinstance(o, str) and o[:1] == '%': out.add(int(o[1:]))
            elif isinstance(o, dict):
                for v in o.values(): ids(v, out)
            elif isinstance(o, (list, tuple)):
                for v in o: ids(v, out)
        use = [set() for _ in range(n)]; de = [set() for _ in range(n)]; out = [set() for _ in range(n)]
        for b in range(n):
            for i in f.blocks[b]:
                if i.op == 'phi':
                    for pb, v in zip(i.x, i.ops): ids(v, out[pb])
                else:
                    u = set(); ids(i.ops, u); ids(i.x, u)
                    use[b] |= u - de[b]
                de[b].add(i.id)
        li = [set() for _ in range(n)]; ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set(out[b])
                for s in f.succs(b): o |= li[s]
                x = use[b] | (o - de[b])
                if x != li[b]: li[b] = x; ch = True
        self._live[f.name] = (li, out)
        return self._live[f.name]

    def val(self, env, o):
        if isinstance(o, bool): return int(o)
        if isinstance(o, int): return o
        if o == 'null': return 0
        if isinstance(o, str) and o[:1] == '%': return env.get(int(o[1:]))
        if isinstance(o, dict):
            if 'g' in o: return ('p', o['g'], 0)
            if o.get('ce') == 'gep':
                b = self.val(env, o['gep']['b'])
                if isinstance(b, tuple) and not o['gep']['v']: return ('p', b[1], b[2] + o['gep']['o'])
        return None

    def run(self, fname, args, mem=(), state=None, depth=0):
        """all (result, mem, state) at the returns"""
        f = self.p.get(fname)
        if depth > 6: return {(None, frozenset(mem), state)}
        li, phiuse = self.live(f)
        env0 = frozenset((k, a) for k, a in enumerate(args) if a is not None)
        work = [(0, None, env0, frozenset(mem), state)]; seen = set(work); results = set()
        while work:
            b, pred, envf, memf, st = work.pop()
            self.steps += 1
            if self.steps > self.limit: raise AnalysisBroken('too many paths in ' + fname)
            env = dict(envf)
            new = {}
            blk = f.blocks[b]
            for i in blk:
                if i.op != 'phi': break
                v = None
                for pb, o in zip(i.x, i.ops):
                    if pb == pred: v = self.val(env, o)
                h = self.m.value(f, i, env)
                if h is not None: v = h[0]
                if isinstance(v, int) and abs(v) > 1 << 40: v = None
                new[i.id] = v
            for k, v in new.items():
                if v is None: env.pop(k, None)
                else: env[k] = v
            states = [(env, dict(memf), st)]
            for i in blk:
                if i.op == 'phi': continue
                if i.op in ('br', 'switch', 'ret', 'unreachable', 'indirectbr'): break
                nxt = []
                for env, mem, st in states: nxt.extend(self.step(f, i, env, mem, st, depth))
                states = nxt
                if len(states) > 400: raise AnalysisBroken('too many states in ' + fname)
            t = blk[-1]
            for env, mem, st in states:
                if t.op == 'ret':
                    v = self.val(env, t.ops[0]) if t.ops else None
                    m2 = frozenset((k, x) for k, x in mem.items() if not (isinstance(k[0], tuple) and k[0][0] == f.name))
                    self.m.ret(f, v, mem, st)
                    results.add((v, m2, st)); continue
                for s, extra in self.edges(f, t, env):
                    e = dict(env); e.update(extra)
                    keep = li[s] | phiuse[b]
                    ef = frozenset((k, v) for k, v in e.items() if k in keep and v is not None)
                    n = (s, b if f.blocks[s][0].op == 'phi' else None, ef, frozenset(mem.items()), st)
                    if n not in seen: seen.add(n); work.append(n)
        return results

    def refine(self, f, o, truth, out, depth=0):
        if isinstance(o, str) and o[:1] == '%': out[int(o[1:])] = -1 if truth else 0
        d = f.defn(o)
        if d is None or depth > 4: return
        if d.op == 'icmp':
            a, c = d.ops
            eq = (d.x == 'eq') == truth
            if d.x in ('eq', 'ne'):
                if eq and isinstance(c, int) and isinstance(a, str) and a[:1] == '%': out[int(a[1:])] = c
                if eq and c == 'null' and isinstance(a, str): out[int(a[1:])] = 0
                if c == 0:
                    z = f.defn(a)
                    if z is not None and z.op in ('zext', 'sext'):
                        src = f.defn(z.ops[0])
                        if src is not None and src.ty == 'i1': self.refine(f, z.ops[0], not eq, out, depth + 1)
        elif d.op == 'xor' and d.ops[1] in (1, -1) and d.ty == 'i1':
            self.refine(f, d.ops[0], not truth, out, depth + 1)

    def edges(self, f, t, env):
        if t.op == 'br':
            if len(t.ops) == 1: yield t.ops[0]['bb'], {}; return
            c = self.val(env, t.ops[0]); tr, fa = t.ops[2]['bb'], t.ops[1]['bb']
            if isinstance(c, int): yield (tr if c & 1 else fa), {}; return
            x = {}; self.refine(f, t.ops[0], True, x); yield tr, x
            x = {}; self.refine(f, t.ops[0], False, x); yield fa, x
        elif t.op == 'switch':
            c = self.val(env, t.ops[0]); o = t.ops[0]
            cases = [(t.ops[k], t.ops[k + 1]['bb']) for k in range(2, len(t.ops), 2)]
            if isinstance(c, int):
                for v, bb in cases:
                    if v == c: yield bb, {}; return
                yield t.ops[1]['bb'], {}; return
            for v, bb in cases: yield bb, ({int(o[1:]): v} if isinstance(o, str) else {})
            yield t.ops[1]['bb'], {}
        elif t.op in ('ret', 'unreachable'): return
        else:
            for s in t.succ(): yield s, {}

    def step(self, f, i, env, mem, st, depth):
        op = i.op; V = lambda o: self.val(env, o)
        def one(v, mem=mem, st=st):
            e = env
            if v is None:
                if i.id in e: e = dict(e); e.pop(i.id)
            else:
                e = dict(e); e[i.id] = v
            return [(e, mem, st)]
        h = self.m.value(f, i, env)
        if h is not None: return one(h[0])
        if op == 'load':
            a = V(i.ops[0])
            h = self.m.load(f, i, a, mem, st)
            if h is not None: return one(h[0])
            return one(mem.get((a[1], a[2])) if isinstance(a, tuple) else None)
        if op == 'store':
            a = V(i.ops[1]); v = V(i.ops[0])
            h = self.m.store(f, i, a, v, mem, st)
            if h is not None: return [(env, h[0], h[1])]
            if isinstance(a, tuple):
                mem = dict(mem)
                if v is None: mem.pop((a[1], a[2]), None)
                else: mem[(a[1], a[2])] = v
            return [(env, mem, st)]
        if op == 'alloca': return one(('p', (f.name, i.id), 0))
        if op == 'gep':
            b = V(i.x['b'])
            if not isinstance(b, tuple): return one(None)
            off = b[2] + i.x['o']
            for o, sc in i.x['v']:
                c = V(o)
                if not isinstance(c, int): return one(None)
                off += c * sc
            return one(('p', b[1], off))
        if op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = V(i.ops[0])
            if not isinstance(v, int): return one(v if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr') else None)
            d = f.defn(i.ops[0]); sw = 64
            if d is not None and d.ty[0] == 'i' and d.ty[1:].isdigit(): sw = int(d.ty[1:])
            w = int(i.ty[1:]) if i.ty[0] == 'i' and i.ty[1:].isdigit() else 64
            if op == 'zext': return one(v & ((1 << sw) - 1))
            if op == 'trunc': return one(signed(v, w))
            return one(v)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sdiv', 'udiv', 'srem', 'urem'):
            a, b = V(i.ops[0]), V(i.ops[1])
            w = int(i.ty[1:]) if i.ty[0] == 'i' and i.ty[1:].isdigit() else 64
            if isinstance(a, int) and isinstance(b, int):
                try:
                    if op in ('shl', 'ashr', 'lshr') and not 0 <= b < w: return one(None)
                    if op in ('sdiv', 'udiv', 'srem', 'urem'):
                        if b == 0: return one(None)
                        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                        return one(q if 'div' in op else a - q * b)
                    r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                         'xor': lambda: a ^ b, 'shl': lambda: a << b, 'ashr': lambda: a >> b, 'lshr': lambda: (a & ((1 << w) - 1)) >> b}[op]()
                    return one(signed(r, w))
                except (OverflowError, ValueError): return one(None)
            if op in ('add', 'sub') and isinstance(a, tuple) and isinstance(b, int):
                return one(('p', a[1], a[2] + (b if op == 'add' else -b)))
            if op == 'and' and (a == 0 or b == 0): return one(0)
            if op == 'sub' and isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1]: return one(a[2] - b[2])
            return one(None)
        if op == 'icmp':
            a, b = V(i.ops[0]), V(i.ops[1])
            if isinstance(a, int) and isinstance(b, int): return one(-1 if cmp(i.x, a, b) else 0)
            if isinstance(a, tuple) and isinstance(b, tuple):
                if a[1] == b[1]: return one(-1 if cmp(i.x, a[2], b[2]) else 0)
                return one({'eq': 0, 'ne': -1}.get(i.x))
            if isinstance(a, tuple) and b == 0 and i.x in ('eq', 'ne'): return one(0 if i.x == 'eq' else -1)
            if i.x in REL:
                # follow an unknown bound for a few values
                for u, k, left in ((i.ops[0], b, True), (i.ops[1], a, False)):
                    if isinstance(k, int) and isinstance(u, str) and u[:1] == '%' and V(u) is None and 0 <= k <= 3:
                        out = []
                        for c in range(3):
                            e = dict(env); e[int(u[1:])] = c
                            d = f.defn(u)
                            while d is not None and d.op in ('trunc', 'sext', 'zext') and isinstance(d.ops[0], str) and int(d.ops[0][1:]) not in e:
                                e[int(d.ops[0][1:])] = c; d = f.defn(d.ops[0])
                            e[i.id] = -1 if (cmp(i.x, c, k) if left else cmp(i.x, k, c)) else 0
                            out.append((e, mem, st))
                        return out
            return one(None)
        if op == 'select':
            c = V(i.ops[0])
            if isinstance(c, int): return one(V(i.ops[1] if c & 1 else i.ops[2]))
            out = []
            for truth, o in ((True, i.ops[1]), (False, i.ops[2])):
                x = {}; self.refine(f, i.ops[0], truth, x)
                e = dict(env); e.update(x); v = self.val(e, o)
                if v is None: e.pop(i.id, None)
                else: e[i.id] = v
                out.append((e, mem, st))
            if out[0][0] == out[1][0]: return out[:1]
            return out
        if op == 'call':
            fn = self.p.funcs.get(i.callee) if i.callee else None
            args = [V(o) for o in i.ops]
            r = self.m.call(f, i, args, mem, st)
            if r == 'follow' and fn is not None and not fn.decl:
                r = [(v, dict(m), s) for v, m, s in self.run(fn.name, args, mem.items(), st, depth + 1)]
            elif r == 'follow': r = None
            if r is None:
                if fn is not None and fn.noreturn: return []
                if i.callee and i.callee.startswith('llvm.expect'): return one(args[0])
                # locals whose address is passed are unknown afterwards
                if not (i.callee and i.callee.startswith('llvm.')):
                    ks = {a[1] for a in args if isinstance(a, tuple) and isinstance(a[1], tuple)}
                    if ks: mem = {k: v for k, v in mem.items() if k[0] not in ks}
                return one(None, mem)
            out = []
            for v, m, s in r: out.extend(one(v, m, s))
            return out
        return one(None)
