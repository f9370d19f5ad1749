"""Which built-in operations change an object on the stack, and whether they
looked at its read-only mark first (V07).

Facts ('w', k): on this path the mark of the object k was tested and not set.
A change is a store to the body of k at an offset that is not a fixed field, a
block copy into it, a store of its class, or of the body pointer of its OOP.
"""
import tags
from tags import Tags, P0

COPIES = ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'read', 'pread', 'recv', 'recvfrom', 'fread', 'sprintf', 'snprintf',
          'memcpy_chk', 'memmove_chk', 'memset_chk', '__memcpy_chk', '__memmove_chk', '__memset_chk')
MARK = 0x20


class ReadOnly(Tags):
    """hits only writes; reuses the class facts to prune paths"""
    def summary(self, g):
        if g in self.sums: return self.sums[g]
        needs, outs = super().summary(g)
        if needs:
            # one need per parameter and kind of change
            n2 = {}
            for (n, what, tf), h in needs.items(): n2.setdefault((n, what, (None, frozenset())), h)
            needs = n2
        self.sums[g] = (needs, outs)
        return self.sums[g]

    def hit(self, f, i, k, what, need, mem):
        if what[:6] == 'change': super().hit(f, i, k, what, need, {})

    def change(self, f, i, k, what, mem):
        self.checked += 1
        if mem.get(('w', k)) is None: self.hit(f, i, k, 'change ' + what, None, mem)

    def assume(self, mem, v, truth):
        if v is not None and v[0] == 'B' and v[1] == 'ro':
            if truth == v[4]:
                if mem.get(('w', v[2])): return None
                return mem
            m = dict(mem); m['w', v[2]] = True
            return m
        return super().assume(mem, v, truth)

    def step(self, f, i, env, sp, mem, results, depth):
        V = lambda o: self.val(env, o)
        def ret(v):
            env[i.id] = v
            return [(env, sp, mem)]
        if i.op == 'load':
            a = V(i.ops[0])
            if a is not None and a[0] == 'at' and a[2] == 8 and i.ty != 'ptr': return ret(('fl', a[1]))
        elif i.op == 'and' and i.ty != 'i1':
            a, b = V(i.ops[0]), V(i.ops[1])
            if b is not None and b[0] == 'fl': a, b = b, a
            if a is not None and a[0] == 'fl' and b is not None and b[0] == 'i' and b[1] == MARK: return ret(('flb', a[1]))
        elif i.op in ('trunc', 'zext', 'sext', 'freeze'):
            a = V(i.ops[0])
            if a is not None and a[0] in ('fl', 'flb'): return ret(a)
        elif i.op in ('lshr', 'ashr'):
            a, b = V(i.ops[0]), V(i.ops[1])
            if a is not None and a[0] == 'flb': return ret(a)
        elif i.op == 'icmp' and i.x in ('eq', 'ne', 'ugt', 'sgt'):
            a, b = V(i.ops[0]), V(i.ops[1])
            if b is not None and b[0] == 'flb': a, b = b, a
            if a is not None and a[0] == 'flb' and b is not None and b[0] == 'i':
                return ret(('B', 'ro', a[1], None, (i.x != 'eq') == (b[1] == 0)))
        elif i.op in ('add', 'sub'):
            a, b = V(i.ops[0]), V(i.ops[1])
            if i.op == 'add' and b is not None and b[0] == 'obj': a, b = b, a
            if a is not None and a[0] == 'obj': return ret(('obj', a[1], None, ''))
        elif i.op == 'gep':
            b = V(i.x['b'])
            if b is not None and b[0] in ('in', 'at') and (i.x['v'] or b[0] == 'at' and b[2] is None): return ret(('at', b[1], None))
            if b is not None and b[0] == 'obj' and b[2] is None: return ret(b)
        elif i.op == 'store':
            a = V(i.ops[1])
            if a is not None and a[0] in ('in', 'at') and (a[0] == 'in' or a[2] in (0, None)):
                self.change(f, i, a[1], 'identity' if a[0] == 'in' or a[2] == 0 else 'contents', mem)
            elif a is not None and a[0] == 'obj' and a[2] is None: self.change(f, i, a[1], 'contents', mem)
            elif a is not None and a[0] == 'obj' and a[2] == 8: self.change(f, i, a[1], 'class', mem)
        elif i.op == 'call' and i.callee:
            b = i.callee.split('.')[1] if i.callee.startswith('llvm.mem') else self.base(i.callee)
            if b in COPIES:
                n = 1 if b in ('read', 'pread', 'recv', 'recvfrom') else 0
                a = V(i.ops[n])
                if a is not None and (a[0] == 'obj' or a[0] in ('in', 'at') and a[1] >= P0): self.change(f, i, a[1], 'contents', mem)
        return super().step(f, i, env, sp, mem, results, depth)

    def call(self, f, i, env, sp, mem, depth):
        g = i.callee; V = lambda o: self.val(env, o)
        fn = self.p.funcs.get(g) if g else None
        if fn is not None and not fn.decl and not fn.noreturn and g not in self.inter:
            args = [V(o) for o in i.ops]
            if any(a is not None and a[0] in ('in', 'obj') for a in args):
                needs, outs = self.summary(g)
                for (n, what, tf), h in needs.items():
                    a = args[n] if n < len(args) else None
                    if a is not None and a[0] == 'in' and what[:6] == 'change':
                        self.checked += 1
                        if mem.get(('w', a[1])) is None: self.hit(f, i, a[1], what, h, mem)
                    # a body handed to a helper that stores through it
                    if a is not None and a[0] == 'obj' and what in ('change identity', 'change contents'):
                        self.change(f, i, a[1], 'contents', mem)
        return super().call(f, i, env, sp, mem, depth)
