"""Abstract interpretation in a domain of bytes: a value is a constant or a row of bytes, each of them a constant or byte
number i of an input.  Used for the conversions between large integers (rows of bytes) and C numbers.

Runs a function for one abstract input (class and number of bytes of the object, or sign of the number); branches that the
domain decides are followed, others are followed both ways with what they assume.
"""
import sys
from sccp import width


class Unknown(Exception): pass
U = ('?',)


def sg(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


class Sym:
    """a value that is only compared and passed on"""
    def __init__(self, *a): self.a = a
    def __eq__(self, o): return isinstance(o, Sym) and self.a == o.a
    def __hash__(self): return hash(self.a)
    def __repr__(self): return 'Sym%r' % (self.a,)


class Machine:
    """size, cls: of the large integer %0; or number: None/'+'/'-' when %0 is a number of the given sign"""
    def __init__(self, f, size=None, cls=None, sign=None, signed=True):
        self.f = f; self.size, self.cls, self.sign, self.signed = size, cls, sign, signed
        self.results = []                    # (value, assumptions, stores, allocations)

    # values: int (unsigned), list of bytes, Sym, ('bool', cond)
    def bytes_of(self, v, n):
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return [(v >> 8 * k) & 255 for k in range(n)]
        if isinstance(v, list): return (v + [0] * n)[:n]
        return [U] * n

    def norm(self, v):
        if isinstance(v, list) and all(isinstance(x, int) for x in v): return sum(x << 8 * k for k, x in enumerate(v))
        return v

    def get(self, o, env):
        if isinstance(o, bool): return int(o)
        if isinstance(o, int): return o
        if isinstance(o, str) and o[:1] == '%': return env.get(int(o[1:]), Sym('?', o))
        if o == 'null': return 0
        if isinstance(o, dict):
            if 'g' in o: return Sym('glob', o['g'])
            if o.get('ce') == 'gep' and isinstance(o['gep'].get('b'), dict): return Sym('glob', o['gep']['b'].get('g'), o['gep']['o'])
        return Sym('?', str(o))

    def w(self, o):
        d = self.f.defn(o)
        if d is not None: return width(d.ty or '')
        k = self.f.param(o)
        return width(self.f.params[k]) if k is not None else None

    def run(self):
        env = {}
        if self.sign is None: env[0] = Sym('oop')
        else:
            n = width(self.f.params[0]) // 8; self.n = n
            env[0] = [('x', k) for k in range(n)]
        lo, hi = None, None
        if self.sign == '-': lo, hi = -(1 << (8 * self.n - 1)), -1
        if self.sign == '+': lo, hi = 0, (1 << (8 * self.n - 1)) - 1
        todo = [(0, None, env, {}, (), [], lo, hi, 0)]; self.steps = 0
        while todo:
            b, frm, env, mem, asm, alloc, lo, hi, n = todo.pop()
            n += 1
            if n > 400 or len(todo) > 64: raise Unknown('too many paths')
            env = dict(env); mem = dict(mem); alloc = list(alloc); self.lo, self.hi = lo, hi
            blk = self.f.blocks[b]
            new = {}
            for i in blk:
                if i.op != 'phi': break
                new[i.id] = self.get(i.ops[i.x.index(frm)], env)
            env.update(new)
            for i in blk:
                self.steps += 1
                if self.steps > 40000: raise Unknown('too long')
                if i.op == 'phi': continue
                if i.op == 'ret':
                    self.results.append((self.get(i.ops[0], env) if i.ops else None, asm, mem, alloc)); break
                if i.op == 'br':
                    if len(i.ops) == 1: todo.append((i.ops[0]['bb'], b, env, mem, asm, alloc, lo, hi, n)); break
                    c = self.get(i.ops[0], env); t, e = i.ops[2]['bb'], i.ops[1]['bb']
                    if isinstance(c, (int, bool)): todo.append((t if c & 1 else e, b, env, mem, asm, alloc, lo, hi, n)); break
                    for target, truth in ((t, True), (e, False)):
                        l2, h2, a2 = self.refine(c, truth, lo, hi)
                        if l2 is not None and l2 > h2: continue
                        todo.append((target, b, env, mem, asm + a2, alloc, l2, h2, n))
                    break
                if i.op == 'switch':
                    c = self.get(i.ops[0], env)
                    if not isinstance(c, int): raise Unknown('switch at %s' % i.loc())
                    dst = i.ops[1]['bb']
                    for k in range(2, len(i.ops) - 1, 2):
                        if i.ops[k] == c: dst = i.ops[k + 1]['bb']
                    todo.append((dst, b, env, mem, asm, alloc, lo, hi, n)); break
                if i.op == 'unreachable': break
                env[i.id] = self.ev(i, env, mem, alloc)
        return self.results

    def refine(self, c, truth, lo, hi):
        if isinstance(c, tuple) and c[0] == 'and' and truth:
            a = ()
            for x in c[1]: lo, hi, y = self.refine(x, True, lo, hi); a += y
            return lo, hi, a
        if isinstance(c, tuple) and c[0] == 'not': return self.refine(c[1], not truth, lo, hi)
        if isinstance(c, tuple) and c[0] == 'cmp':
            p, k = c[1:]
            if not truth: p = {'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt', 'eq': 'ne', 'ne': 'eq'}[p]
            if p == 'slt': hi = min(hi, k - 1)
            if p == 'sle': hi = min(hi, k)
            if p == 'sgt': lo = max(lo, k + 1)
            if p == 'sge': lo = max(lo, k)
            return lo, hi, ()
        return lo, hi, ((c, truth),)

    def compare(self, p, a, b, w):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, int) and isinstance(b, int):
            if p in ('eq', 'ne'): return int((a & ((1 << w) - 1) == b & ((1 << w) - 1)) == (p == 'eq'))
            if p[0] == 's': a, b = sg(a, w), sg(b, w)
            else: a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
            return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p[1:]])
        if isinstance(a, Sym) and isinstance(b, Sym) and p in ('eq', 'ne'):
            if 'class' in (a.a[0], b.a[0]) and a.a[0] in ('class', 'glob') and b.a[0] in ('class', 'glob'): return int((a == b) == (p == 'eq'))
        x = [('x', k) for k in range(getattr(self, 'n', 0))]
        if x and isinstance(b, list) and b == x and isinstance(a, int): a, b, p = b, a, p.translate(str.maketrans('gl', 'lg'))
        if x and isinstance(a, list) and a == x and isinstance(b, int) and self.sign:
            k = b & ((1 << w) - 1)
            if p[0] == 'u':
                # in one half of the range, unsigned comparisons are signed ones
                if self.sign == '-': k -= 1 << w
                p = 's' + p[1:]
            else: k = sg(b, w)
            lo, hi = self.lo, self.hi
            r = {'slt': (hi < k, lo >= k), 'sle': (hi <= k, lo > k), 'sgt': (lo > k, hi <= k), 'sge': (lo >= k, hi < k), 'eq': (lo == hi == k, not lo <= k <= hi), 'ne': (not lo <= k <= hi, lo == hi == k)}[p]
            if r[0]: return 1
            if r[1]: return 0
            return ('cmp', p, k)
        if isinstance(a, list) and isinstance(b, int) and p in ('eq', 'ne', 'ult', 'ugt', 'slt', 'sgt', 'sge', 'sle', 'ule', 'uge'):
            # a row of bytes that is not zero-extended from less is not decided unless its constant bytes do
            if p in ('eq', 'ne') and b == 0:
                c = ('zero', tuple(a))
                return c if p == 'eq' else ('not', c)
            if p in ('ugt', 'sgt') and b == 0 and (p == 'ugt' or a[-1] == 0): return ('not', ('zero', tuple(a)))
            return ('open', p, tuple(a), b)
        return ('open', p, repr(a), repr(b))

    def ev(self, i, env, mem, alloc):
        f = self.f; V = [self.get(o, env) for o in i.ops]; op = i.op; w = width(i.ty or '') or 64; nb = w // 8
        m = (1 << w) - 1
        if op in ('freeze', 'bitcast', 'addrspacecast'): return V[0]
        if op == 'ptrtoint': return Sym('addr', V[0])
        if op == 'inttoptr': return V[0] if isinstance(V[0], (Sym, list)) else Sym('ptr', V[0])
        if op == 'icmp': return self.compare(i.x, V[0], V[1], self.w(i.ops[0]) or self.w(i.ops[1]) or 64)
        if op == 'select':
            if isinstance(V[0], (int, bool)): return V[1] if V[0] & 1 else V[2]
            if V[2] == 0 and i.ty == 'i1': return ('and', (V[0], V[1])) if V[1] not in (0, 1, -1) else V[0] if V[1] else 0
            return Sym('?', i.id)
        if op in ('zext', 'sext', 'trunc'):
            sw = self.w(i.ops[0]) or 64
            if isinstance(V[0], int):
                return (sg(V[0], sw) if op == 'sext' else V[0] & ((1 << sw) - 1)) & m
            if isinstance(V[0], tuple): return V[0] if op != 'sext' else Sym('?', i.id)
            if isinstance(V[0], list):
                if op == 'trunc': return self.norm(V[0][:max(nb, 1)])
                if op == 'zext': return self.norm(V[0] + [0] * (nb - len(V[0])))
                top = V[0][-1]
                if isinstance(top, int): return self.norm(V[0] + [255 if top & 128 else 0] * (nb - len(V[0])))
            return Sym('?', i.id)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem'):
            a, b = V
            if isinstance(a, int) and isinstance(b, int):
                if op in ('shl', 'lshr', 'ashr') and not 0 <= b < w: return [U] * max(nb, 1)        # undefined
                try: return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                        'shl': lambda: a << b, 'lshr': lambda: (a & m) >> b, 'ashr': lambda: sg(a, w) >> b, 'udiv': lambda: (a & m) // b,
                        'sdiv': lambda: abs(sg(a, w)) // abs(sg(b, w)) * (1 if (sg(a, w) < 0) == (sg(b, w) < 0) else -1), 'urem': lambda: (a & m) % b}[op]() & m
                except ZeroDivisionError: return Sym('?', i.id)
            if op == 'and' and isinstance(a, Sym) and a.a[0] == 'addr' and b == 1: return 0 if a.a[1] == Sym('oop') else Sym('?', i.id)
            if op == 'and' and i.ty == 'i1' and isinstance(a, tuple) and isinstance(b, tuple): return ('and', (a, b))
            if op == 'xor' and i.ty == 'i1' and isinstance(a, tuple) and b in (1, -1): return ('not', a)
            if i.ty == 'i1' or nb < 1 or isinstance(a, (Sym, tuple)) or isinstance(b, (Sym, tuple)): return Sym('?', i.id)
            if op in ('shl', 'lshr', 'ashr'):
                if not isinstance(b, int) or b % 8 or not 0 <= b < w: return [U] * nb
                k = b // 8; x = self.bytes_of(a, nb)
                if op == 'shl': return self.norm([0] * k + x[:nb - k])
                if op == 'lshr': return self.norm(x[k:] + [0] * k)
                return self.norm(x[k:] + [x[-1] if isinstance(x[-1], int) and x[-1] in (0, 255) else U] * k) if k else self.norm(x)
            if op == 'mul':
                if isinstance(a, int): a, b = b, a
                if isinstance(b, int) and b and b & (b - 1) == 0 and (b.bit_length() - 1) % 8 == 0: k = (b.bit_length() - 1) // 8; return self.norm([0] * k + self.bytes_of(a, nb)[:nb - k])
                return [U] * nb
            x, y = self.bytes_of(a, nb), self.bytes_of(b, nb)
            if op == 'sub': return a if b == 0 else [U] * nb
            r = []
            for p, q in zip(x, y):
                if op in ('or', 'add', 'xor'):
                    if p == 0: r.append(q)
                    elif q == 0: r.append(p)
                    elif op == 'or' and 255 in (p, q): r.append(255)
                    elif op == 'or' and p == q: r.append(p)
                    elif op == 'xor' and p == q and p != U: r.append(0)
                    elif op == 'or': r.append(U)
                    elif op == 'xor': r.append(p ^ q if isinstance(p, int) and isinstance(q, int) else U)
                    else: return r + [U] * (nb - len(r))      # a carry may reach the bytes above
                else:
                    if 0 in (p, q): r.append(0)
                    elif p == 255: r.append(q)
                    elif q == 255: r.append(p)
                    elif isinstance(p, int) and isinstance(q, int): r.append(p & q)
                    else: r.append(p if p == q else U)
            return self.norm(r)
        if op == 'gep':
            b = V[0]; off = i.x['o']
            base = self.get(i.x['b'], env)
            for v, sc in i.x['v']:
                k = self.norm(self.get(v, env))
                if not isinstance(k, int): raise Unknown('index at %s' % i.loc())
                off += sg(k, 64) * sc
            if isinstance(base, Sym) and base.a[0] == 'at': return Sym('at', base.a[1], base.a[2] + off)
            return Sym('at', base, off)
        if op == 'alloca': return Sym('local', i.id)
        if op == 'load': return self.load(i, V[0], mem, nb)
        if op == 'store':
            self.store(i, V[0], V[1], mem); return None
        if op == 'call':
            g = (i.callee or '').split('.')[0]
            if g == 'oop_num_fields' and V[0] == Sym('oop'): return self.size
            if g in ('new_instance_with', 'instantiate_with', '_gst_alloc_obj', 'alloc_oop', 'instantiate'):
                k = len(alloc); alloc.append((V[0], V[1] if len(V) > 1 else None))
                if len(V) > 2: mem[repr(V[2])] = Sym('neu', k)
                return Sym('body', k)
            if (i.callee or '').startswith('llvm.'):
                if g == 'llvm':
                    h = i.callee.split('.')[1]
                    if h in ('bswap',) and isinstance(V[0], (list, int)): return self.norm(self.bytes_of(V[0], nb)[::-1])
                    if h in ('umin', 'smin') and isinstance(V[0], int) and isinstance(V[1], int): return min(V[0], V[1])
                    if h in ('umax', 'smax') and isinstance(V[0], int) and isinstance(V[1], int): return max(V[0], V[1])
                    if h == 'memcpy' and isinstance(V[2], int):
                        for k in range(V[2]):
                            s = self.byteat(self.move(V[1], k), mem); self.put(self.move(V[0], k), s, mem)
                return None
            return Sym('call', g, i.id)
        return Sym('?', i.id)

    def move(self, p, k):
        if isinstance(p, Sym) and p.a[0] == 'at': return Sym('at', p.a[1], p.a[2] + k)
        return Sym('at', p, k)

    def byteat(self, p, mem):
        if p.a[0] != 'at': p = Sym('at', p, 0)
        base, off = p.a[1], p.a[2]
        if repr(p) in mem and not isinstance(mem[repr(p)], Sym): return mem[repr(p)]
        if base == Sym('obj') and self.size is not None and off >= 16: return ('b', off - 16) if off - 16 < self.size else U
        return U

    def put(self, p, v, mem): mem[repr(p if p.a[0] == 'at' else Sym('at', p, 0))] = v

    def load(self, i, p, mem, nb):
        if i.ty == 'ptr':
            if p == Sym('oop') or isinstance(p, Sym) and p.a[0] == 'at' and p.a[1:] == (Sym('oop'), 0): return Sym('obj')
            if isinstance(p, Sym) and p.a[0] == 'at' and p.a[1:] == (Sym('obj'), 8): return Sym('class', self.cls)
            if isinstance(p, Sym) and p.a[0] == 'glob': return Sym('class', p.a[1])
            if isinstance(p, Sym) and repr(p) in mem: return mem[repr(p)]
            if isinstance(p, Sym) and p.a[0] == 'class': return Sym('classobj')
            return Sym('?', i.id)
        if isinstance(p, Sym) and p.a[0] == 'at' and p.a[1:] == (Sym('classobj'), 32): return 0        # no instance variables
        q = p if isinstance(p, Sym) and p.a[0] == 'at' else Sym('at', p, 0)
        if nb: return self.norm([self.byteat(self.move(q, k), mem) for k in range(nb)])
        return Sym('?', i.id)

    def store(self, i, v, p, mem):
        w = self.w(i.ops[0]) or width((i.x or [None])[0] if isinstance(i.x, list) and i.x and isinstance(i.x[0], str) else '')
        if isinstance(v, Sym): mem[repr(p)] = v; return
        if w is None:
            t = i.x[0] if isinstance(i.x, list) and i.x else ''
            w = {'omnipotent char': 8, 'short': 16, 'int': 32, 'long': 64}.get(t, 8)
        for k, x in enumerate(self.bytes_of(v, w // 8)): self.put(self.move(p, k), x, mem)
