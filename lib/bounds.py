"""Linear facts about the integers of one function at one point (V05, V06).

at(f, block) -> Facts: the conditions that hold there, as linear constraints
over atoms (SSA values and structural properties of objects), each derived
only after the arithmetic below it has been shown not to wrap around.
prove(f, block, goal) tries the facts of the point, then those of each way
into the joins above it.
"""
from fractions import Fraction as Q
from ineq import add, scale, const, entails


def leafkey(f, o):
    """name of a value: casts do not change it"""
    d = f.defn(o); n = 0
    while d is not None and d.op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr') and n < 8:
        o = d.ops[0]; d = f.defn(o); n += 1
    return o if isinstance(o, str) else repr(o)


W62 = 1 << 62
TAIL = 1 << 57          # no object is larger than this (in words)


def width(t):
    return int(t[1:]) if isinstance(t, str) and t[:1] == 'i' and t[1:].isdigit() else None


class Facts:
    __slots__ = ('cons', 'clauses', 'iv', 'cache', 'seen', 'rep', 'dead', 'wraps', 'sets')
    def __init__(self, o=None):
        self.cons = list(o.cons) if o else []; self.clauses = []; self.iv = dict(o.iv) if o else {}
        self.wraps = {}; self.sets = dict(o.sets) if o else {}; self.cache = {}; self.rep = dict(o.rep) if o else {}; self.seen = set(o.seen) if o else set(); self.dead = o.dead if o else False

    def same(self, a):
        while a in self.rep: a = self.rep[a]
        return a

    def put(self, c):
        t, k = c
        if len(t) == 2 and k == 0 and all(isinstance(a, tuple) and a[0] == 'K' for a in t):
            a, b = sorted(t, key=repr)
            if ('eq', a, b) in self.seen and t[a] == -t[b] and self.same(a) != self.same(b): self.rep[self.same(a)] = self.same(b)
            self.seen.add(('eq', a, b) if t[a] > 0 else ('eq', b, a))
            if ('eq', a, b) in self.seen and ('eq', b, a) in self.seen and self.same(a) != self.same(b): self.rep[self.same(a)] = self.same(b)
        if not t:
            if k < 0: self.dead = True
            return
        key = (frozenset(t.items()), k)
        if key in self.seen: return
        self.seen.add(key); self.cons.append(c)
        if len(t) == 1:
            (a, m), = t.items()
            lo, hi = self.iv.get(a, (None, None))
            if m > 0:
                v = -(k // m)      # a >= -k/m
                if lo is None or v > lo: lo = v
            else:
                v = k // -m
                if hi is None or v < hi: hi = v
            self.iv[a] = (lo, hi)
            if lo is not None and hi is not None and lo > hi: self.dead = True

    def rng(self, l):
        lo = hi = l[1]
        for a, m in l[0].items():
            x, y = self.iv.get(a, (None, None))
            if m < 0: x, y = y, x
            lo = None if lo is None or x is None else lo + m * x
            hi = None if hi is None or y is None else hi + m * y
        return lo, hi

    def ge0(self, l):
        lo = self.rng(l)[0]
        if lo is not None and lo >= 0: return True
        return self.dead or entails(self.cons, l)

    def within(self, l, lo, hi):
        x, y = self.rng(l)
        return (x is not None and x >= lo or self.ge0((l[0], l[1] - lo))) and \
               (y is not None and y <= hi or self.ge0(add(const(hi), l, -1)))


class Bounds:
    def __init__(self, p, classes=None, hook=None, budget=4000):
        self.p = p; self.classes = classes or {}; self.hook = hook; self.calls = {}
        self.budget = budget; self._busy = set(); self._dom = {}; self._facts = {}

    TRANSPARENT = ('add', 'sub', 'mul', 'shl', 'trunc', 'zext', 'sext', 'select', 'and', 'or', 'lshr', 'ashr', 'freeze', 'icmp')

    # ------------------------------------------------------------ structure
    def dom(self, f):
        if f.name not in self._dom:
            d = f.dominators()
            self._dom[f.name] = d
        return self._dom[f.name]

    def dominates(self, f, a, b):
        d = self.dom(f)
        while True:
            if a == b: return True
            n = d.get(b)
            if n is None or n == b: return False
            b = n

    def entries(self, f, b):
        """predecessors of b other than the ends of loops that start at b"""
        d = self.dom(f)
        return [x for x in dict.fromkeys(f.preds[b]) if x in d and not self.dominates(f, b, x)]

    # ------------------------------------------------------------ objects
    def body_of(self, f, o, env=None, depth=0):
        """the OOP whose body the pointer o is, as a key, or None"""
        o = self.resolve(f, o, env); d = f.defn(o)
        if d is not None and d.op == 'phi':
            if depth > 2 or (f.name, o) in self._busy: return None
            self._busy.add((f.name, o))
            bs = [self.body_of(f, x, env, depth + 1) for x in d.ops]
            self._busy.discard((f.name, o))
            return bs[0] if bs[0] is not None and all(x == bs[0] for x in bs) else None
        if d is not None and d.op == 'load' and d.ty == 'ptr':
            tag = d.x if isinstance(d.x, list) else None
            if tag and tag[0] == 'oop_s' and tag[2] == 0: return self.okey(f, d.ops[0], env)
        k = f.param(o)
        if k is not None and (f.base, k) in self.bodyparams: return ('oop', '%%%d' % self.bodyparams[f.base, k])
        return None

    bodyparams = {}

    def okey(self, f, o, env=None):
        d = f.defn(o); n = 0
        while n < 12:
            n += 1
            if env and isinstance(o, str) and o[0] == '%' and int(o[1:]) in env: o = env[int(o[1:])]; d = f.defn(o); continue
            if d is not None and d.op in ('bitcast', 'freeze'): o = d.ops[0]; d = f.defn(o); continue
            if d is not None and d.op == 'inttoptr':
                e = f.defn(d.ops[0])
                if e is not None and e.op == 'ptrtoint': o = e.ops[0]; d = f.defn(o); continue
            break
        if d is not None and d.op == 'load':
            a, off = self.split(f, d.ops[0])
            ob = self.body_of(f, a, env)
            if ob is not None: return ('field', ob, off)
        return ('oop', leafkey(f, o))

    def split(self, f, o):
        """pointer -> (base, constant offset)"""
        off = 0
        for _ in range(12):
            d = f.defn(o)
            if isinstance(o, dict) and o.get('ce') == 'gep' and not o['gep']['v']: off += o['gep']['o']; o = o['gep']['b']; continue
            if d is None: break
            if d.op == 'gep' and not d.x['v']: off += d.x['o']; o = d.x['b']; continue
            if d.op in ('bitcast', 'freeze'): o = d.ops[0]; continue
            break
        return o, off

    # ------------------------------------------------------------ values
    def atom(self, F, k, lo=None, hi=None):
        if lo is not None: F.put(({k: 1}, -lo))
        if hi is not None: F.put(({k: -1}, hi))
        return {k: 1}, 0

    def size(self, F, o):
        """header + fields, in words, of the object o; and its number of named fields"""
        sz, fx, e = ('SZ', o), ('FX', o), ('E', o)
        if ('ob', o) not in F.seen:
            F.seen.add(('ob', o))
            self.atom(F, sz, 2, TAIL); self.atom(F, fx, 0, 1 << 30); self.atom(F, e, 0, 7)
            F.put(({sz: 1, fx: -1}, -2))
            F.put(({sz: 8, fx: -8, e: -1}, -16))
        return ({sz: 1}, 0), ({fx: 1}, 0), ({e: 1}, 0)

    def pow2(self, F, k):
        """2 ** k for the atom k"""
        k = F.same(k)
        a = ('2^', k)
        lo, hi = F.iv.get(k, (0, 62))
        lo = max(lo or 0, 0); hi = 62 if hi is None else min(hi, 62)
        if lo == hi: return const(1 << lo)
        self.atom(F, a, 1 << lo, 1 << hi)
        return {a: 1}, 0

    def times(self, F, l, k):
        """l * 2**k, linear over product atoms; None if too complicated"""
        k = F.same(k); P = self.pow2(F, k)
        if not P[0]: return scale(l, P[1])
        t = {}; c = 0
        for a, m in l[0].items():
            if isinstance(a, tuple) and a[0] in ('*', '2^'): return None
            t['*', a, k] = m
        if l[1]: t['2^', k] = l[1]
        # products of what is known with 2**k (which is positive)
        plain = [(x, y) for x, y in F.cons if not any(isinstance(a, tuple) and a[0] in ('*', '2^') for a in x)]
        near = set(l[0])
        for x, y in plain:
            if set(x) & set(l[0]): near |= set(x)
        for x, y in plain:
            if not (set(x) & set(l[0])) and not set(x) <= near: continue
            u = {('*', a, k): m for a, m in x.items()}
            if y: u['2^', k] = y
            F.put((u, 0))
        return t, c

    def kclass(self, F, o):
        """atom: log2 of the element size of the object o"""
        k = ('K', o)
        self.atom(F, k, 0, 4)
        return k

    def val(self, f, o, F, env, depth=0):
        if isinstance(o, bool): o = int(o)
        if isinstance(o, int): return const(o)
        if o == 'null' or o == 'undef': return const(0)
        if not (isinstance(o, str) and o[:1] == '%'): return {('g', repr(o)): 1}, 0
        k = int(o[1:])
        if env and k in env: return self.val(f, env[k], F, env, depth + 1) if depth < 40 else ({('v', k): 1}, 0)
        if k in F.cache: return F.cache[k]
        F.cache[k] = ({('v', k): 1}, 0)         # cycles through phi nodes
        r = self.val1(f, k, F, env, depth)
        F.cache[k] = r
        return r

    def opaque(self, f, k, F, ty, lo=None, hi=None):
        a = ('v', k); w = width(ty)
        if w and ('ty', a) not in F.seen:
            F.seen.add(('ty', a))
            if w == 1: self.atom(F, a, 0, 1)
            else: self.atom(F, a, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        if lo is not None or hi is not None: self.atom(F, a, lo, hi)
        return {a: 1}, 0

    def quotient(self, F, key, l, q):
        """floor(l / q)"""
        if not l[0]: return const(l[1] // q)
        a = ('/', q, repr(sorted(l[0].items(), key=repr)), l[1])
        F.put(add(l, ({a: -q}, 0)))
        F.put(add(({a: q}, q - 1), l, -1))
        lo, hi = F.rng(l)
        if lo is None or lo < 0 and F.ge0(l): lo = 0
        for c in list(F.cons):
            # c: -l + something is at least 0
            if len(c[0]) == len(l[0]) and all(c[0].get(x) == -m for x, m in l[0].items()):
                hi = c[1] + l[1] if hi is None else min(hi, c[1] + l[1])
        self.atom(F, a, None if lo is None else lo // q, None if hi is None else hi // q)
        return {a: 1}, 0

    def val1(self, f, k, F, env, depth):
        if k < len(f.params):
            w = width(f.params[k])
            x = self.hook and self.hook(self, f, '%%%d' % k, F, env)
            if x is not None: return x
            return self.opaque(f, k, F, f.params[k])
        i = f.ins[k]; op = i.op; w = width(i.ty) or 64
        if depth > 40: return self.opaque(f, k, F, i.ty)
        V = lambda o: self.val(f, o, F, env, depth + 1)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        x = self.hook and self.hook(self, f, '%%%d' % k, F, env)
        if x is not None: return x
        if op in ('add', 'sub', 'mul', 'shl'):
            a, b = V(i.ops[0]), V(i.ops[1]); r = None
            if op in ('add', 'sub'): r = add(a, b, 1 if op == 'add' else -1)
            elif op == 'mul':
                if not b[0]: r = scale(a, b[1])
                elif not a[0]: r = scale(b, a[1])
            elif not b[0] and 0 <= b[1] < 63: r = scale(a, 1 << b[1])
            elif len(b[0]) == 1 and b[1] == 0:
                kk, m = next(iter(b[0].items()))
                if m == 1 and F.iv.get(kk, (None,))[0] is not None and F.iv[kk][0] >= 0: r = self.times(F, a, kk)
            if r is not None and F.within(r, lo, hi): return r
            if r is not None: F.wraps['v', k] = r, w
            return self.opaque(f, k, F, i.ty)
        if op in ('sext', 'freeze', 'bitcast'): return V(i.ops[0])
        if op == 'zext':
            a = V(i.ops[0]); d = f.defn(i.ops[0])
            sw = width(d.ty) if d is not None else width(f.params[f.param(i.ops[0])]) if f.param(i.ops[0]) is not None else None
            if sw == 1: return self.opaque(f, k, F, i.ty, 0, 1)
            if F.ge0(a): return a
            return self.opaque(f, k, F, i.ty, 0, (1 << sw) - 1 if sw else None)
        if op == 'trunc':
            a = V(i.ops[0])
            if w > 1 and F.within(a, lo, hi): return a
            return self.opaque(f, k, F, i.ty)
        if op == 'ptrtoint': 
            d = f.defn(i.ops[0])
            if d is not None and d.op == 'inttoptr': return V(d.ops[0])
            return {('p', leafkey(f, i.ops[0])): 1}, 0
        if op in ('ashr', 'lshr', 'udiv', 'sdiv'):
            b = V(i.ops[1])
            d = f.defn(i.ops[0])
            if op == 'ashr' and not b[0] and b[1] == 1 and d is not None and d.op == 'ptrtoint':
                return self.untag(f, d.ops[0], F, env)
            if op in ('ashr', 'lshr') and not b[0]:
                fx = self.fixed(f, i.ops[0], b[1], F, env)
                if fx is not None: return fx
            a = V(i.ops[0])
            if not b[0] and b[1] >= 0 and (op == 'ashr' or F.ge0(a)):
                q = b[1] if op in ('udiv', 'sdiv') else 1 << b[1] if b[1] < 63 else None
                if q and q > 0: return self.quotient(F, k, a, q)
            if op == 'lshr' and len(b[0]) == 1 and b[1] == 0 and F.ge0(a):
                kk, m = next(iter(b[0].items()))
                if m == 1 and (F.iv.get(kk, (None,))[0] or 0) >= 0:
                    # q = a >> kk: q * 2**kk <= a
                    q = self.opaque(f, k, F, i.ty, 0)
                    t = self.times(F, q, kk)
                    if t is not None: F.put(add(a, t, -1)); F.put(add(a, q, -1))
                    return q
            return self.opaque(f, k, F, i.ty, 0 if op == 'lshr' and b == const(b[1]) and b[1] > 0 else None)
        if op == 'and':
            for x, y in ((0, 1), (1, 0)):
                if isinstance(i.ops[y], int) and i.ops[y] >= 0:
                    m = i.ops[y]
                    if m == 7:
                        e = self.empty(f, i.ops[x], F, env)
                        if e is not None: return e
                    a = V(i.ops[x])
                    if (m & (m + 1)) == 0 and F.within(a, 0, m): return a
                    r = self.opaque(f, k, F, i.ty, 0, m)
                    if F.ge0(a): F.put(add(a, r, -1))
                    return r
            a, b = V(i.ops[0]), V(i.ops[1])
            for x in (a, b):
                if F.ge0(x):
                    r = self.opaque(f, k, F, i.ty, 0); F.put(add(x, r, -1)); return r
            return self.opaque(f, k, F, i.ty)
        if op == 'or':
            a, b = V(i.ops[0]), V(i.ops[1])
            if F.ge0(a) and F.ge0(b):
                r = self.opaque(f, k, F, i.ty, 0)
                F.put(add(r, a, -1)); F.put(add(r, b, -1)); F.put(add(add(a, b), r, -1)); return r
            return self.opaque(f, k, F, i.ty)
        if op in ('urem', 'srem'):
            b = V(i.ops[1]); a = V(i.ops[0])
            if not b[0] and b[1] > 0 and (op == 'urem' or F.ge0(a)): return self.opaque(f, k, F, i.ty, 0, b[1] - 1)
            if not b[0] and b[1] > 0 and op == 'srem': return self.opaque(f, k, F, i.ty, 1 - b[1], b[1] - 1)
            return self.opaque(f, k, F, i.ty)
        if op == 'load': return self.load(f, i, F, env)
        if op == 'call':
            return self.call(f, i, F, env)
        if op == 'phi':
            r = self.opaque(f, k, F, i.ty)
            self.induction(f, i, F, env, r, depth)
            return r
        if op == 'select':
            a, b = V(i.ops[1]), V(i.ops[2]); r = self.opaque(f, k, F, i.ty)
            for side in (1, -1):
                # a bound shared by both values
                x, y = F.rng(a), F.rng(b)
            lo_ = None if x[0] is None or y[0] is None else min(x[0], y[0])
            hi_ = None if x[1] is None or y[1] is None else max(x[1], y[1])
            self.atom(F, ('v', k), lo_, hi_)
            for x, y in ((a, b), (b, a)):
                if F.ge0(add(x, y, -1)): F.put(add(r, y, -1)); F.put(add(x, r, -1)); break
            return r
        return self.opaque(f, k, F, i.ty)

    def untag(self, f, o, F, env):
        """TO_INT of the value o"""
        d = f.defn(o)
        if d is not None and d.op == 'inttoptr':
            e = f.defn(d.ops[0])
            # (x << 1) + 1
            if e is not None and e.op in ('add', 'or') and e.ops[1] == 1:
                s = f.defn(e.ops[0])
                if s is not None and s.op == 'shl' and s.ops[1] == 1:
                    a = self.val(f, s.ops[0], F, env)
                    if F.within(a, -W62, W62 - 1): return a
        if d is not None and d.op == 'load':
            a, off = self.split(f, d.ops[0])
            ob = self.body_of(f, a, env)
            if ob is not None and off == 0: return self.size(F, ob)[0]
        if env and isinstance(o, str) and o[0] == '%' and int(o[1:]) in env: return self.untag(f, env[int(o[1:])], F, env)
        return self.atom(F, ('int', leafkey(f, o)), -W62, W62 - 1)

    def specof(self, f, o, env=None):
        """the object whose class has this instance specification, or None"""
        for _ in range(8):
            if env and isinstance(o, str) and o[0] == '%' and int(o[1:]) in env: o = env[int(o[1:])]; continue
            d = f.defn(o)
            if d is None:
                k = f.param(o)
                if k is not None and (f.base, k) in self.specparams: return ('oop', '%%%d' % self.specparams[f.base, k])
                return None
            if d.op == 'xor' and isinstance(d.ops[1], int) and 0 <= d.ops[1] < 1 << 13: o = d.ops[0]; continue
            if d.op == 'ptrtoint' or d.op == 'freeze': o = d.ops[0]; continue
            break
        if d.op != 'load' or not isinstance(d.x, list) or d.x[0] not in ('gst_class', 'gst_behavior', 'gst_metaclass', 'gst_class_description'): return None
        a, off = self.split(f, d.ops[0])
        if off != 32: return None
        c = self.body_of(f, a, env)
        if c is not None and c[0] == 'field' and c[2] == 8: return c[1]
        return None

    specparams = {}

    def fixed(self, f, o, n, F, env):
        ob = self.specof(f, o, env)
        if ob is None or n != 13: return None
        return self.size(F, ob)[1]

    def empty(self, f, o, F, env):
        d = f.defn(o)
        if d is None or d.op != 'load': return None
        a, off = self.split(f, d.ops[0])
        if not isinstance(d.x, list) or d.x[0] != 'oop_s' or off != 8: return None
        return self.size(F, self.okey(f, a, env))[2]

    def load(self, f, i, F, env):
        a = f.defn(i.ops[0])
        if a is not None and a.op == 'gep' and isinstance(a.x['b'], dict) and a.x['b'].get('g') in self.p.globals:
            g = self.p.globals[a.x['b']['g']]
            if a.x['b']['g'] == '_gst_log2_sizes' and len(a.x['v']) == 1:
                m = f.defn(a.x['v'][0][0])
                if m is not None and m.op == 'and' and isinstance(m.ops[1], int):
                    ob = self.specof(f, m.ops[0], env)
                    if ob is not None: return {self.kclass(F, ob): 1}, 0
            init = g.get('init'); arr = None
            if isinstance(init, dict): arr = init.get('arr') or ([ord(c) for c in init['s']] if 's' in init else None)
            if g.get('const') and arr and all(isinstance(c, int) for c in arr): return self.opaque(f, i.id, F, i.ty, min(arr), max(arr))
        w = width(i.ty)
        key = ('ld', i.ty, leafkey(f, '%%%d' % i.id))
        if w and ('ty', key) not in F.seen:
            F.seen.add(('ty', key)); self.atom(F, key, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return {key: 1}, 0

    def call(self, f, i, F, env):
        g = (i.callee or '').split('.')[0]
        V = lambda o: self.val(f, o, F, env)
        if g == 'oop_num_fields':
            ob = self.okey(f, i.ops[0], env); sz, fx, e = self.size(F, ob)
            n = ('NF', ob); k = self.kclass(F, ob)
            r = self.atom(F, n, 0, TAIL); x = add(r, fx, -1); F.put(x)
            self.atom(F, n, 0, (1 << (width(i.ty) - 1)) - 1)
            t = self.times(F, x, k)
            room = add(add(scale(sz, 8), const(-16)), add(scale(fx, 8), e), -1)
            if t is not None:
                F.put(add(room, t, -1)); F.put(t)
                F.put(add(room, x, -1))
            return r
        if self.p.funcs.get(i.callee) is not None and i.callee not in self.calls and not self.p.funcs[i.callee].decl:
            self.calls[i.callee] = None
            self.calls[i.callee] = self.returns(self.p.funcs[i.callee])
        r = self.calls.get(i.callee)
        if r is not None: return self.opaque(f, i.id, F, i.ty, *r)
        return self.opaque(f, i.id, F, i.ty)

    def returns(self, g):
        """range of what a function returns, when that is plain"""
        lo = hi = None
        if not width(g.ret): return None
        todo = []; seen = set(); leaves = []
        for b in g.blocks:
            t = b[-1]
            if t.op == 'ret' and t.ops: todo.append(t.ops[0])
        while todo:
            o = todo.pop()
            if repr(o) in seen: continue
            seen.add(repr(o)); d = g.defn(o)
            if d is not None and d.op == 'phi': todo += d.ops
            elif d is not None and d.op == 'select': todo += d.ops[1:]
            else: leaves.append(o)
        F = Facts()
        for o in leaves:
            x, y = F.rng(self.val(g, o, F, None))
            if x is None or y is None: return None
            lo = x if lo is None else min(lo, x); hi = y if hi is None else max(hi, y)
        return (lo, hi) if lo is not None else None

    def induction(self, f, i, F, env, r, depth):
        back = [(pb, o) for pb, o in zip(i.x, i.ops) if self.dominates(f, i.bb, pb)]
        init = [(pb, o) for pb, o in zip(i.x, i.ops) if not self.dominates(f, i.bb, pb)]
        if not init: return
        if not back:
            # a join: the hull of what comes in
            iv = [F.rng(self.val(f, o, F, env, depth + 1)) for pb, o in init]
            if all(x is not None for x, y in iv): self.atom(F, ('v', i.id), min(x for x, y in iv))
            if all(y is not None for x, y in iv): self.atom(F, ('v', i.id), None, max(y for x, y in iv))
            return
        # what the loop checks before it goes round again
        lo = hi = True
        for pb, o in back:
            l, h = self.guard(f, o, pb, i.bb, F, env, depth)
            lo = l if lo is True else None if lo is None or l is None else min(lo, l)
            hi = h if hi is True else None if hi is None or h is None else max(hi, h)
        iv = [F.rng(self.val(f, o, F, env, depth + 1)) for pb, o in init]
        if lo is not None and all(x is not None for x, y in iv): self.atom(F, ('v', i.id), min([lo] + [x for x, y in iv]))
        if hi is not None and all(y is not None for x, y in iv): self.atom(F, ('v', i.id), None, max([hi] + [y for x, y in iv]))
        sign = set()
        for pb, o in back:
            s = self.stepof(f, o, i.id)
            if s is None: return
            sign |= s
        if sign <= {0, 1} and len(init) == 1 and len(back) == 1:
            # i counts up by one while i < n: i <= max (start, n)
            v = self.val(f, init[0][1], F, env, depth + 1)
            for n, strict in self.tops(f, back[0][0], i):
                n = self.val(f, n, F, env, depth + 1)
                if not strict: n = n[0], n[1] + 1
                for c in (0, 1):
                    x = n[0], n[1] + c
                    if F.ge0(add(x, v, -1)): F.put(add(x, r, -1)); break
        for s in (1, -1):
            if all(x * s >= 0 for x in sign):
                if len(init) == 1:
                    v = self.val(f, init[0][1], F, env, depth + 1)
                    if ('v', i.id) not in v[0]: F.put(scale(add(r, v, -1), s))

    def guard(self, f, o, b, head, F, env, depth):
        """range of o on the way from the loop's head to its end b, from comparisons of o itself"""
        lo = hi = None; d = self.dom(f)
        while True:
            e = self.entries(f, b)
            if len(e) == 1 and b != head:
                t = f.term(e[0])
                if t.op == 'br' and len(t.ops) == 3 and t.ops[1] != t.ops[2]:
                    for c, truth in self.atoms(f, t.ops[0], t.ops[2]['bb'] == b):
                        if o not in c.ops: continue
                        p = c.x if truth else {'eq': 'ne', 'ne': 'eq', 'sgt': 'sle', 'sge': 'slt', 'slt': 'sge', 'sle': 'sgt', 'ugt': 'ule', 'uge': 'ult', 'ult': 'uge', 'ule': 'ugt'}[c.x]
                        other = c.ops[1] if c.ops[0] == o else c.ops[0]
                        if c.ops[0] != o: p = p.translate(str.maketrans('gl', 'lg'))
                        x, y = F.rng(self.val(f, other, F, env, depth + 1)) if other != o else (None, None)
                        if p in ('ult', 'ule') and x is not None and x >= 0: p = 's' + p[1:]; lo = 0 if lo is None else max(lo, 0)
                        if p in ('sgt', 'sge') and x is not None: x += p == 'sgt'; lo = x if lo is None else max(lo, x)
                        if p in ('slt', 'sle') and y is not None: y -= p == 'slt'; hi = y if hi is None else min(hi, y)
            n = d.get(b)
            if b == head or n is None or n == b: return lo, hi
            b = n

    def atoms(self, f, o, truth, n=0):
        """comparisons that hold, with their truth, when the boolean o is truth"""
        d = f.defn(o)
        if d is None or n > 8: return
        if d.op == 'icmp': yield d, truth
        elif d.op == 'xor' and d.ops[1] in (-1, 1): yield from self.atoms(f, d.ops[0], not truth, n + 1)
        elif d.op == 'and' and truth or d.op == 'or' and not truth:
            for x in d.ops: yield from self.atoms(f, x, truth, n + 1)
        elif d.op == 'select' and truth and d.ops[2] == 0:
            for x in d.ops[:2]: yield from self.atoms(f, x, True, n + 1)
        elif d.op == 'select' and not truth and d.ops[1] in (1, -1):
            yield from self.atoms(f, d.ops[0], False, n + 1); yield from self.atoms(f, d.ops[2], False, n + 1)

    def tops(self, f, b, i):
        """values n that do not change in the loop of the phi i and that i is below (or at) whenever the loop goes round"""
        d = self.dom(f); me = '%%%d' % i.id; head = i.bb
        while b != head and d.get(b) is not None:
            e = self.entries(f, b)
            if len(e) == 1:
                t = f.term(e[0])
                if t.op == 'br' and len(t.ops) == 3 and t.ops[1] != t.ops[2]:
                    truth = t.ops[2]['bb'] == b; c = f.defn(t.ops[0])
                    if c is not None and c.op == 'icmp' and c.x[0] == 's':
                        x, y, p = c.ops[0], c.ops[1], c.x
                        if not truth: p = {'sgt': 'sle', 'sge': 'slt', 'slt': 'sge', 'sle': 'sgt'}[p]
                        if p in ('sgt', 'sge'): x, y, p = y, x, {'sgt': 'slt', 'sge': 'sle'}[p]
                        x = self.uncast(f, x)
                        e2 = f.defn(y)
                        if x == me and (not isinstance(y, str) or e2 is None or e2.bb != head and self.dominates(f, e2.bb, head)): yield y, p == 'slt'
            b = d[b]

    def uncast(self, f, o):
        d = f.defn(o)
        while d is not None and d.op in ('sext', 'freeze'): o = d.ops[0]; d = f.defn(o)
        return o

    def stepof(self, f, o, k, n=0):
        """constant steps by which o may differ from the phi k; None if unknown"""
        if o == '%%%d' % k: return {0}
        d = f.defn(o)
        if d is None or n > 6: return None
        if d.op in ('add', 'sub') and isinstance(d.ops[1], int):
            s = self.stepof(f, d.ops[0], k, n + 1)
            return None if s is None else {x + (d.ops[1] if d.op == 'add' else -d.ops[1]) for x in s}
        if d.op == 'phi' and d.id != k:
            out = set()
            for x in d.ops:
                s = self.stepof(f, x, k, n + 1)
                if s is None: return None
                out |= s
            return out
        return None

    # ------------------------------------------------------------ conditions
    def cond(self, f, o, truth, F, env, n=0):
        """record what the boolean o being truth says"""
        if isinstance(o, int):
            if bool(o) != truth: F.dead = True
            return
        if not (isinstance(o, str) and o[0] == '%') or n > 12: return
        k = int(o[1:])
        if env and k in env: return self.cond(f, env[k], truth, F, env, n + 1)
        d = f.ins.get(k)
        if d is None: return
        C = lambda o, t: self.cond(f, o, t, F, env, n + 1)
        if d.op in ('zext', 'freeze', 'sext'): return C(d.ops[0], truth)
        if d.op == 'trunc' and d.ty == 'i1': return C(d.ops[0], truth)
        if d.op == 'xor' and d.ops[1] in (-1, 1): return C(d.ops[0], not truth)
        if d.op == 'and' and d.ty == 'i1' and truth or d.op == 'or' and d.ty == 'i1' and not truth:
            C(d.ops[0], truth); C(d.ops[1], truth); return
        if d.op == 'select' and d.ty == 'i1':
            a, b = d.ops[1], d.ops[2]
            if isinstance(b, int) and bool(b) != truth: C(d.ops[0], True); C(a, truth)
            elif isinstance(a, int) and bool(a) != truth: C(d.ops[0], False); C(b, truth)
            elif isinstance(b, int): F.clauses.append(((d.ops[0], False), (a, truth)))
            elif isinstance(a, int): F.clauses.append(((d.ops[0], True), (b, truth)))
            return
        if d.ty == 'i1' and (d.op == 'and' and not truth or d.op == 'or' and truth):
            F.clauses.append(((d.ops[0], truth), (d.ops[1], truth))); return
        if d.op == 'phi':
            may = [(pb, x) for pb, x in zip(d.x, d.ops) if not (isinstance(x, int) and bool(x) != truth)]
            if len(may) == 1 and len(d.ops) > 1:
                C(may[0][1], truth); self.edge(f, may[0][0], d.bb, F, env); self.chain(f, may[0][0], F, env, stop=self.dom(f).get(d.bb))
            return
        if d.op == 'call' and truth is not None and d.callee:
            x = self.predicate(f, d, truth, F, env)
            return
        if d.op != 'icmp': return
        if ('b', k, not truth) in F.seen: F.dead = True; return
        F.seen.add(('b', k, truth))
        p = d.x
        # (bool) != 0
        o0 = d.ops[0]
        for _ in range(8):
            if env and isinstance(o0, str) and o0[:1] == '%' and int(o0[1:]) in env: o0 = env[int(o0[1:])]
            else: break
        e = f.defn(o0)
        if d.ops[1] == 0 and p in ('eq', 'ne') and e is not None and (e.op in ('zext', 'sext') and (f.defn(e.ops[0]) is not None and f.defn(e.ops[0]).ty == 'i1') or e.ty == 'i1' or e.op == 'call'):
            C(o0, truth == (p == 'ne'))
            if e.op != 'call': return
        if d.ops[1] == 0 and p in ('eq', 'ne') and truth == (p == 'eq') and e is not None and e.op == 'and' and isinstance(e.ops[1], int) and e.ops[1] & 7 == 7:
            x = self.empty(f, e.ops[0], F, env)
            if x is not None: F.put(scale(x, -1))
        if p in ('eq', 'ne') and truth == (p == 'eq'): self.sameclass(f, d, F, env); self.nofixed(f, d, F, env)
        a = self.val(f, d.ops[0], F, env); b = self.val(f, d.ops[1], F, env)
        if not truth: p = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'uge': 'ult', 'ult': 'uge', 'ule': 'ugt', 'sgt': 'sle', 'sge': 'slt', 'slt': 'sge', 'sle': 'sgt'}[p]
        df = add(a, b, -1)           # a - b
        if p == 'eq': F.put(df); F.put(scale(df, -1)); return
        if p == 'ne':
            if F.ge0(df): F.put((df[0], df[1] - 1))
            elif F.ge0(scale(df, -1)):
                x = scale(df, -1); F.put((x[0], x[1] - 1))
            return
        if p[1:] in ('lt', 'le'): a, b = b, a; df = scale(df, -1)
        strict = p[1:] in ('lt', 'gt')
        # now a >(=) b
        if p[0] == 'u':
            if not F.ge0(a):
                # both negative
                if not F.ge0(({x: -c for x, c in b[0].items()}, -b[1] - 1)): return
                F.put(({x: -c for x, c in a[0].items()}, -a[1] - 1))
            else: F.put(b)
        F.put((df[0], df[1] - (1 if strict else 0)))

    def predicate(self, f, d, truth, F, env):
        return None

    def resolve(self, f, o, env):
        for _ in range(12):
            if env and isinstance(o, str) and o[:1] == '%' and int(o[1:]) in env: o = env[int(o[1:])]; continue
            d = f.defn(o)
            if d is not None and d.op in ('bitcast', 'freeze'): o = d.ops[0]; continue
            break
        return o

    def classof(self, f, o, env):
        """the object whose class the value o is, or the name of a class, or None"""
        o = self.resolve(f, o, env); e = f.defn(o)
        if isinstance(o, dict) and 'g' in o: return o['g']
        if e is None or e.op != 'load': return None
        if isinstance(e.ops[0], dict) and 'g' in e.ops[0]: return e.ops[0]['g']
        a, off = self.split(f, e.ops[0]); ob = self.body_of(f, a, env)
        return ob if ob is not None and off == 8 else None

    def sameclass(self, f, d, F, env):
        """two classes compare equal: so do element size and number of named fields"""
        a, b = self.classof(f, d.ops[0], env), self.classof(f, d.ops[1], env)
        if a is None or b is None or a == b: return
        if isinstance(a, tuple) and isinstance(b, tuple):
            fa, fb = self.size(F, a)[1], self.size(F, b)[1]; x = add(fa, fb, -1)
            F.put(x); F.put(scale(x, -1))
            x = add(({self.kclass(F, a): 1}, 0), ({self.kclass(F, b): 1}, 0), -1)
            F.put(x); F.put(scale(x, -1))
            return
        if isinstance(a, str): a, b = b, a
        if not isinstance(a, tuple): return
        n = self.classes.get(b)
        if n is None: return
        k = self.kclass(F, a); self.atom(F, k, n, n)
        self.size(F, a); self.atom(F, ('FX', a), 0, 0)

    def nofixed(self, f, d, F, env):
        """the bits of an instance specification that hold the number of named fields are zero"""
        for x, y in ((0, 1), (1, 0)):
            if d.ops[y] != 0: continue
            m = f.defn(self.resolve(f, d.ops[x], env))
            if m is None or m.op != 'and' or not isinstance(m.ops[1], int): continue
            k = m.ops[1] & ((1 << 64) - 1)
            if k >> 13 != (1 << 51) - 1: continue
            ob = self.specof(f, m.ops[0], env)
            if ob is not None: self.size(F, ob); self.atom(F, ('FX', ob), 0, 0)

    # ------------------------------------------------------------ points
    def edge(self, f, a, b, F, env):
        t = f.term(a)
        if t.op == 'br' and len(t.ops) == 3:
            tr, fa = t.ops[2]['bb'], t.ops[1]['bb']
            if tr != fa: self.cond(f, t.ops[0], b == tr, F, env)
        elif t.op == 'switch':
            cs = [t.ops[k] for k in range(2, len(t.ops) - 1, 2) if t.ops[k + 1]['bb'] == b]
            if t.ops[1]['bb'] != b and cs:
                v = self.val(f, t.ops[0], F, env)
                F.sets[self.uncast(f, t.ops[0])] = set(cs)
                F.put(add(v, const(min(cs)), -1)); F.put(add(const(max(cs)), v, -1))

    def chain(self, f, b, F, env, stop=None):
        """conditions on the dominator path to b"""
        d = self.dom(f); path = [b]
        while path[-1] != stop and d.get(path[-1]) is not None and d[path[-1]] != path[-1]: path.append(d[path[-1]])
        for x in reversed(path):
            if x == stop: continue
            e = self.entries(f, x)
            if len(e) == 1 and len([z for z in f.preds[x] if z == e[0]]) >= 1: self.edge(f, e[0], x, F, env)

    def at(self, f, b, env=None, parts=()):
        """facts at block b, given the ways taken into the joins of parts [(pred, join)]"""
        key = (f.name, b, tuple(sorted((env or {}).items(), key=repr)), tuple(parts))
        if key in self._facts: return Facts(self._facts[key])
        F = Facts()
        for rnd in range(2):
            F.cache = {}
            for pb, j in reversed(parts):
                if pb is None: self.cond(f, f.ins[abs(j)].ops[0], j > 0, F, env); continue
                self.chain(f, pb, F, env); self.edge(f, pb, j, F, env)
            self.chain(f, b, F, env, stop=None)
            if rnd == 0: F.clauses = []
        for alts in F.clauses:
            # (x, t) or (y, u): when one cannot be, the other is
            for (x, t), (y, u) in (alts, alts[::-1]):
                G = Facts(F); self.cond(f, x, t, G, env)
                if G.dead or entails(G.cons, const(-1)): self.cond(f, y, u, F, env); break
        F.clauses = []; F.cache = {}
        self.unwrap(F)
        self._facts[key] = F
        return Facts(F)

    def unwrap(self, F):
        """sums that could wrap around but, going by what is known of them now, have not"""
        for _ in range(len(F.wraps)):
            done = False
            for a, (r, w) in list(F.wraps.items()):
                m = 1 << w; lr, hr = F.rng(r)
                if lr is None or hr is None: continue
                if F.ge0(({a: 1}, m - hr - 1)) and F.ge0(({a: -1}, m + lr - 1)):
                    x = add(r, ({a: 1}, 0), -1); F.put(x); F.put(scale(x, -1)); del F.wraps[a]; done = True
            if not done: return

    def joins(self, f, b, done):
        d = self.dom(f)
        while True:
            if len(self.entries(f, b)) > 1 and b not in done: yield b
            n = d.get(b)
            if n is None or n == b: return
            b = n

    def prove(self, f, b, goal, env=None, parts=(), depth=6):
        """goal(F, env) -> list of linear expressions that must be >= 0, or None"""
        F = self.at(f, b, env, parts)
        if F.dead: return True
        g = goal(F, env)
        if g is not None and all(F.ge0(x) for x in g): return True
        if depth == 0: return False
        ab = self.about(f, F, g)
        start = ([x for x, y in parts if x is not None] or [b])[-1]
        for k in sorted(ab):
            # the two values of a selection
            i = f.ins.get(k)
            if i is None or i.op != 'select' or k in (env or {}): continue
            for t in (1, -1):
                self.budget -= 1
                if self.budget < 0: return False
                e2 = dict(env or {}); e2[k] = i.ops[1 if t > 0 else 2]
                if not self.prove(f, b, goal, e2, parts + ((None, t * k),), depth - 1): break
            else: return True
            break
        js = [j for j in self.joins(f, start, ()) if len(self.entries(f, j)) <= 12]
        if not js: return False
        # the ways into the joins that define what the goal is about, or else into the nearest join
        want = [j for j in js if any(i.op == 'phi' and i.id in ab and i.id not in (env or {}) for i in f.blocks[j])]
        for j in dict.fromkeys(want[:1] + js[:1]):
            ok = True
            for pb in self.entries(f, j):
                e2 = dict(env or {})
                for i in f.blocks[j]:
                    if i.op != 'phi': break
                    e2[i.id] = i.ops[i.x.index(pb)]
                self.budget -= 1
                if self.budget < 0: return False
                if not self.prove(f, b, goal, e2, parts + ((pb, j),), depth - 1): ok = False; break
            if ok: return True
        return False

    def about(self, f, F, g):
        """values that the goal and the facts next to it mention"""
        at = set()
        for t, c in g or (): at |= set(t)
        for _ in range(2):
            new = set(at)
            for t, c in F.cons:
                if len(t) > 1 and set(t) & at: new |= set(t)
            at = new
        todo = [a[1] for a in at if isinstance(a, tuple) and a[0] == 'v']; out = set()
        while todo:
            k = todo.pop()
            if k in out: continue
            out.add(k); d = f.ins.get(k)
            if d is not None and d.op in self.TRANSPARENT:
                todo += [int(o[1:]) for o in d.ops if isinstance(o, str) and o[0] == '%']
        return out
