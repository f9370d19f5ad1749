"""Arguments taken off the operand stack and used across a collection (V04).

The collector scans the stack of the active context only up to the stack
pointer.  A slot that an operation has popped is therefore not a root: its
former contents may be used after a point where the collector may run only if
they are also in a slot that is still on the stack or in the incubator.
"""
from stackint import StackInterp, T
import incub


class Popped(StackInterp):
    def __init__(self, p, rooting):
        super().__init__(p)
        self.r = rooting; self.hits = {}; self.points = 0; self._nc = {}
        # helpers that overwrite the stack top
        from stackint import NEUTRAL
        w = set()
        for f in p.funcs.values():
            if f.decl or self.base(f.name) in NEUTRAL: continue
            for i in f.instrs():
                if i.op == 'store':
                    d = f.defn(rooting.root(f, i.ops[1]))
                    if d is not None and d.op == 'load' and d.ops[0] == {'g': '_gst_sp'}: w.add(f.name)
        self.inter = set(self.inter) | w; ch = True
        while ch:
            ch = False
            for f, c in self.cg.items():
                if f not in self.inter and self.base(f) not in NEUTRAL and c & self.inter: self.inter.add(f); ch = True

    def shield(self, k, sp, mem):
        if ('inc', k) in mem: return True
        for d, v in mem.items():
            if isinstance(d, int) and d <= sp and v == ('in', k): return True
        return k <= sp and mem.get(k, ('in', k)) == ('in', k)

    def nullclean(self, n, busy=()):
        """a null result of function n means that it has not collected"""
        if n in self._nc: return self._nc[n]
        f = self.p.funcs.get(n)
        if n not in self.r.may: return True
        if f is None or f.decl or n in busy or f.ret != 'ptr': return False
        IN = [set() for _ in f.blocks]; IN[0].add(False); work = [(0, False)]; ok = True
        last = {}
        while work:
            b, c = work.pop()
            callres = None
            for i in f.blocks[b]:
                if i.op == 'call':
                    if i.callee in self.p.funcs and self.p.funcs[i.callee].noreturn: c = None; break
                    if self.r.gc_call(f, i): c = True
            if c is None: continue
            for s in f.succs(b):
                if c not in IN[s]: IN[s].add(c); work.append((s, c))
            last.setdefault(b, set()).add(c)
        def dirty(b): return True in last.get(b, ())
        def null_ok(v, b, seen):
            """value v, returned from the end of block b, is not null after a collection"""
            if v in ('null', 0): return not dirty(b)
            d = f.defn(v)
            if d is None: return not dirty(b)
            if d.id in seen: return True
            seen = seen | {d.id}
            if d.op == 'phi': return all(null_ok(o, pb, seen) for pb, o in zip(d.x, d.ops))
            if d.op == 'select': return all(null_ok(o, b, seen) for o in d.ops[1:])
            if d.op == 'inttoptr':
                a = f.defn(d.ops[0])
                if a is not None and a.op in ('or', 'add') and a.ops[1] == 1: return True
            if d.op == 'call' and d.callee in self.r.fresh and 'U' in self.r.fresh[d.callee] and self.nonnull(d.callee): return True
            if d.op == 'call' and d.callee in self.p.funcs and self.nullclean(d.callee, busy + (n,)):
                bd = f.block_of(d) if hasattr(f, 'block_of') else next(k for k, bl in enumerate(f.blocks) if d in bl)
                return not (True in IN[bd]) and not any(x.op == 'call' and self.r.gc_call(f, x) for x in f.blocks[bd][:f.blocks[bd].index(d)])
            if d.op in ('load', 'gep'):
                a = f.defn(self.r.root(f, d.ops[0])) if d.op == 'load' else None
                if a is not None and a.op == 'alloca': return self.outcell(f, a)
                if d.op == 'gep': return True
            return not dirty(b)
        for b, bl in enumerate(f.blocks):
            t = bl[-1]
            if t.op == 'ret' and t.ops and last.get(b) and not null_ok(t.ops[0], b, frozenset()): ok = False
        if not busy: self._nc[n] = ok
        return ok

    def outcell(self, f, a):
        """the local variable receives a new object"""
        for i in f.calls():
            for k, o in enumerate(i.ops):
                if (i.callee, k) in self.r.out and f.defn(self.r.root(f, o)) is a: return True
        return False

    def nonnull(self, n, seen=()):
        f = self.p.funcs.get(n)
        if n in seen: return True
        if f is None or f.decl: return False
        def ok(v, s):
            if v in ('null', 0): return False
            d = f.defn(v)
            if d is None: return False
            if d.id in s: return True
            if d.op in ('phi', 'select'): return all(ok(o, s | {d.id}) for o in (d.ops if d.op == 'phi' else d.ops[1:]))
            if d.op == 'call': return self.nonnull(d.callee, seen + (n,))
            if d.op == 'load':
                a = f.defn(self.r.root(f, d.ops[0]))
                return a is not None and a.op == 'alloca' and self.outcell(f, a)
            return d.op in ('gep', 'inttoptr')
        return all(ok(b[-1].ops[0], frozenset()) for b in f.blocks if b[-1].op == 'ret')

    def onedge(self, f, t, s, env, mem):
        if t.op != 'br' or len(t.ops) != 3: return mem
        c = f.defn(t.ops[0]); tr, fa = t.ops[2]['bb'], t.ops[1]['bb']
        truth = s == tr
        if tr == fa: return mem
        n = 0
        while c is not None and c.op == 'xor' and c.ty == 'i1' and n < 4:
            c = f.defn(c.ops[0]); truth = not truth; n += 1
        if c is None: return mem
        if c.op == 'icmp' and c.x in ('eq', 'ne'):
            a, z = c.ops
            if z in ('null', 0) and (c.x == 'eq') == truth:
                d = f.defn(a)
                if d is not None and d.op == 'call':
                    m = {k: v for k, v in mem.items() if not (isinstance(k, tuple) and k[0] == 'dead' and v[1] == (f.name, d.id))}
                    return m
        return mem

    def hit(self, f, i, k, why, what):
        self.hits.setdefault((f.name, i.id, k), (f, i, k, why if isinstance(why, str) else why[0], what))

    def step(self, f, i, env, sp, mem, results, depth):
        def ent(o):
            v = self.val(env, o)
            return v[1] if v is not None and v[0] == 'in' else None
        if i.op in ('load', 'store', 'call', 'gep'):
            us = [i.x['b']] if i.op == 'gep' else i.ops
            for o in us:
                k = ent(o)
                if k is not None and ('dead', k) in mem: self.hit(f, i, k, mem['dead', k], 'used')
        if i.op == 'store' and ent(i.ops[0]) is not None:
            r = self.r.root(f, i.ops[1]); d = f.defn(r)
            if d is not None and d.op == 'load' and incub.field(d.ops[0]) == self.r.inc.ptr: mem['inc', ent(i.ops[0])] = ('i', 1)
        kk = self.r.inc.kinds.get(f.name, {}).get(i.id)
        if kk and kk[0] == 'restore':
            for key in [key for key in mem if isinstance(key, tuple) and key[0] == 'inc']: del mem[key]
        if i.op == 'call' and sp != T and i.callee not in self.inter:
            ca = self.r.gc.callees(f, i)
            for n, o in enumerate(i.ops):
                k = ent(o)
                if k is not None and not self.shield(k, sp, mem) and any(n in self.r.need.get(c, ()) for c in ca):
                    self.hit(f, i, k, i.loc(), 'passed')
            if self.r.gc_call(f, i):
                self.points += 1
                gone = range(-8, 1)
                for k in gone:
                    if not self.shield(k, sp, mem) and ('dead', k) not in mem: mem['dead', k] = (i.loc(), (f.name, i.id) if all(self.nullclean(c) for c in ca) else None)
        if i.op == 'ret' and sp != T and depth == 0:
            for key, why in mem.items():
                if isinstance(key, tuple) and key[0] == 'dead' and self.shield(key[1], sp, mem): self.hit(f, i, key[1], why, 'left on the stack')
        return super().step(f, i, env, sp, mem, results, depth)
