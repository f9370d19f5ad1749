"""Abstract interpretation of the operand-stack effect of VM functions.

State: the stack pointer as a constant displacement from its value on entry
(or T: control went to another context), the symbolic contents of the stack
slots written so far, and constants known along the path (numArgs and id of the
primitive, tested flags).  Dataflow over sets of states; calls to functions
that write the stack pointer are interpreted, calls that only reach it through
the collector or a complete call-in are neutral.
"""
from cfront import AnalysisBroken

T = 'T'
# A complete nested interpretation, or a GC: both leave the caller's stack
# pointer where it was (the collector only relocates it).
NEUTRAL = {'_gst_nvmsg_send', '_gst_interpret', '_gst_restore_object_pointers', '_gst_msg_sendf',
           '_gst_invoke_croutine', '_gst_parse_stream', '_gst_compile_method', '_gst_execute_statements'}
# Activation of another context: everything after is another method's stack.
TRANSFER = {'_gst_send_message_internal', '_gst_send_method', 'resume_suspended_context', 'unwind_to',
            'unwind_context', 'activate_new_context', 'prepare_context'}
# ... the message or block's argument count is this parameter.
SENDS = {'_gst_send_message_internal': 1, 'activate_new_context': 1}
MAXSTATES = 400


class Exploded(Exception):
    pass


class StackInterp:
    def __init__(self, prog):
        self.p = prog
        self.direct = set(); cg = {}
        for f in prog.funcs.values():
            if f.decl: continue
            cg[f.name] = set(i.callee for i in f.calls() if i.callee)
            for i in f.instrs():
                if i.op == 'store' and i.ops[1] == {'g': '_gst_sp'}:
                    self.direct.add(f.name); break
        self.cg = cg
        # interesting: functions reaching a stack-pointer write without passing a neutral one
        inter = {f for f in self.direct if self.base(f) not in NEUTRAL} | \
                {f for f in cg if self.base(f) in TRANSFER}
        ch = True
        while ch:
            ch = False
            for f, c in cg.items():
                if f not in inter and self.base(f) not in NEUTRAL and c & inter:
                    inter.add(f); ch = True
        self.inter = inter
        self.live = {}; self.split = set(); self.on_send = None
        # functions that choose between argument counts recorded in a compiled
        # block: its header fields are followed for a few values each
        self.headers = {f for f, c in cg.items() if 'activate_new_context' in {self.base(x) for x in c}}
        self.depth = 0

    @staticmethod
    def base(n):
        return n.split('.')[0]

    def liveness(self, f):
        if f.name in self.live: return self.live[f.name]
        n = len(f.blocks)
        use = [set() for _ in range(n)]; de = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]
        def ids(o, out):
            if isinstance(o, str) and o[:1] == '%': out.add(int(o[1:]))
            elif isinstance(o, dict):
                for v in o.values(): ids(v, out)
            elif isinstance(o, list):
                for v in o: ids(v, out)
        for b in range(n):
            for i in f.blocks[b]:
                if i.op == 'phi':
                    for pb, v in zip(i.x, i.ops):
                        ids(v, phiuse[pb])
                else:
                    u = set(); ids(i.ops, u)
                    if i.op == 'call': ids(i.x, u)
                    use[b] |= u - de[b]
                de[b].add(i.id)
        li = [set() for _ in range(n)]; ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set(phiuse[b])
                for s in f.succs(b): o |= li[s]
                x = use[b] | (o - de[b])
                if x != li[b]: li[b] = x; ch = True
        self.live[f.name] = li
        return li

    def shape(self, f, o, depth=0):
        d = f.defn(o)
        if d is None or depth > 8: return str(o)
        if d.op == 'load': return 'load(%s)' % self.shape(f, d.ops[0], depth + 1)
        if d.op == 'gep': return 'gep(%s+%s %s)' % (self.shape(f, d.x['b'], depth + 1), d.x['o'], d.x['v'])
        if d.op in ('phi', 'call', 'select', 'alloca'): return str(o)
        return '%s(%s)' % (d.op, ','.join(self.shape(f, x, depth + 1) for x in d.ops))

    # abstract values: ('i',c) ('sp',d) ('in',k) ('a',allocaid,off) or None
    def val(self, env, o):
        if isinstance(o, int): return ('i', o)
        if o == 'null': return ('i', 0)
        if isinstance(o, str) and o[0] == '%': return env.get(int(o[1:]))
        if isinstance(o, dict) and 'g' in o: return ('g', o['g'])
        return None

    def run(self, fname, args, sp=0, mem=(), depth=0):
        try:
            return self.run1(fname, args, sp, mem, depth)
        except Exploded:
            # A loop moves the stack pointer by a run-time count.  The
            # displacement is linear in that count: follow the counts 0..3.
            if fname in self.split: raise AnalysisBroken('too many stack states in %s' % fname)
            self.split.add(fname)
            return self.run1(fname, args, sp, mem, depth)

    def run1(self, fname, args, sp=0, mem=(), depth=0):
        """-> set of (ret, sp, mem) over all paths; mem: frozenset of (slot, value)."""
        f = self.p.get(fname)
        if depth > 8: raise AnalysisBroken('call depth in ' + fname)
        li = self.liveness(f)
        init = {}
        for k, a in enumerate(args):
            if a is not None: init[k] = a
        results = set()
        work = [(0, None, frozenset(init.items()), sp, frozenset(mem))]
        seen = {}
        while work:
            b, pred, envf, sp, memf = work.pop()
            key = (b, pred, envf, sp, memf)
            s = seen.setdefault(b, set())
            if key in s: continue
            s.add(key)
            if len(s) > MAXSTATES: raise Exploded(fname)
            states = [(dict(envf), sp, dict(memf))]
            blk = f.blocks[b]
            # phis
            env = states[0][0]; new = {}
            for i in blk:
                if i.op != 'phi': break
                v = None
                for pb, o in zip(i.x, i.ops):
                    if pb == pred: v = self.val(env, o); break
                new[i.id] = self.merged(f, v)
            for k, v in new.items():
                if v is None: env.pop(k, None)
                else: env[k] = v
            for i in blk:
                if i.op == 'phi': continue
                ns = []
                for env, sp, mem in states:
                    ns.extend(self.step(f, i, env, sp, mem, results, depth))
                states = ns
                if not states: break
            for env, sp, mem in states:
                t = blk[-1]
                for s, extra in self.edges(f, t, env):
                    e2 = dict(env); e2.update(extra)
                    keep = li[s] | set(x for x in self._phivals(f, s, b))
                    e2 = {k: v for k, v in e2.items() if k in keep and v is not None}
                    m2 = self.onedge(f, t, s, env, mem)
                    if m2 is not None: work.append((s, b if f.blocks[s][0].op == 'phi' else None, frozenset(e2.items()), sp, frozenset(m2.items())))
        return results

    def _phivals(self, f, s, b):
        for i in f.blocks[s]:
            if i.op != 'phi': break
            for pb, o in zip(i.x, i.ops):
                if pb == b and isinstance(o, str) and o[0] == '%': yield int(o[1:])

    def refine(self, f, o, truth, out, depth=0):
        """facts implied by i1 operand o being truth"""
        d = f.defn(o)
        if isinstance(o, str) and o[0] == '%': out[int(o[1:])] = ('i', -1 if truth else 0)
        if d is None or depth > 4: return
        if d.op == 'icmp':
            eq = (d.x == 'eq' and truth) or (d.x == 'ne' and not truth)
            a, c = d.ops
            if eq and isinstance(c, int) and isinstance(a, str) and a[0] == '%': out[int(a[1:])] = ('i', c)
            if not eq and d.x in ('eq', 'ne') and c == 0:
                # x != 0 where x = zext i1: x is 1
                z = f.defn(a)
                if z is not None and z.op in ('zext', 'sext'):
                    src = f.defn(z.ops[0])
                    if src is not None and src.ty == 'i1':
                        self.refine(f, z.ops[0], True, out, depth + 1)
            elif eq and c == 0:
                z = f.defn(a)
                if z is not None and z.op in ('zext', 'sext'):
                    src = f.defn(z.ops[0])
                    if src is not None and src.ty == 'i1': self.refine(f, z.ops[0], False, out, depth + 1)
        elif d.op == 'xor' and d.ops[1] in (1, -1) and d.ty == 'i1':
            self.refine(f, d.ops[0], not truth, out, depth + 1)

    def edges(self, f, t, env):
        if t.op == 'br':
            if len(t.ops) == 1: yield t.ops[0]['bb'], {}; return
            c = self.val(env, t.ops[0])
            tr, fa = t.ops[2]['bb'], t.ops[1]['bb']
            if c is not None and c[0] == 'i':
                yield (tr if c[1] else fa), {}
                return
            x = {}; self.refine(f, t.ops[0], True, x); yield tr, x
            x = {}; self.refine(f, t.ops[0], False, x); yield fa, x
        elif t.op == 'switch':
            c = self.val(env, t.ops[0])
            dflt = t.ops[1]['bb']; cases = [(t.ops[k], t.ops[k + 1]['bb']) for k in range(2, len(t.ops), 2)]
            if c is not None and c[0] == 'i':
                for v, bb in cases:
                    if v == c[1]: yield bb, {}; return
                yield dflt, {}; return
            o = t.ops[0]
            for v, bb in cases:
                yield bb, ({int(o[1:]): ('i', v)} if isinstance(o, str) else {})
            yield dflt, {}
        elif t.op in ('ret', 'unreachable'):
            return
        else:
            for s in t.succ(): yield s, {}

    def merged(self, f, v):
        return v

    def onedge(self, f, t, s, env, mem):
        return mem

    def step(self, f, i, env, sp, mem, results, depth):
        op = i.op
        V = lambda o: self.val(env, o)
        def setv(v):
            if v is None: env.pop(i.id, None)
            else: env[i.id] = v
        if op == 'load':
            a = V(i.ops[0])
            if a == ('g', '_gst_sp'):
                setv(('sp', sp) if sp != T else None)
            elif a is not None and a[0] == 'sp' and sp != T:
                setv(mem.get(a[1], ('in', a[1])))
            elif a is not None and a[0] == 'a':
                setv(mem.get(a))
            else: setv(None)
        elif op == 'store':
            a = V(i.ops[1]); v = V(i.ops[0])
            if a == ('g', '_gst_sp'):
                sp = v[1] if (v is not None and v[0] == 'sp' and sp != T) else T
            elif a is not None and a[0] == 'sp':
                # an unknown value stored is identified by its SSA name
                mem[a[1]] = v if v is not None else ('v', f.name, str(i.ops[0])[:40])
            elif a is not None and a[0] == 'a':
                if v is None: mem.pop(a, None)
                else: mem[a] = v
        elif op == 'alloca':
            setv(('a', f.name, i.id, 0))
        elif op == 'gep':
            x = i.x; base = V(x['b'])
            if base is not None and base[0] == 'sp':
                d = x['o']; ok = True
                for o, sc in x['v']:
                    c = V(o)
                    if c is not None and c[0] == 'i': d += c[1] * sc
                    else: ok = False
                setv(('sp', base[1] + d // 8) if ok and d % 8 == 0 else None)
                if not ok: setv(('spx',))
            elif base is not None and base[0] == 'a' and not x['v']:
                setv(('a', base[1], base[2], base[3] + x['o']))
            else: setv(None)
        elif op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            v = V(i.ops[0])
            if v is not None and v[0] == 'i':
                w = int(i.ty[1:]) if i.ty[0] == 'i' else 64
                src = f.defn(i.ops[0])
                c = v[1]
                if op == 'zext':
                    sw = int(src.ty[1:]) if src is not None and src.ty[0] == 'i' else 32
                    c &= (1 << sw) - 1
                if op == 'trunc':
                    c &= (1 << w) - 1
                    if c >> (w - 1): c -= 1 << w
                setv(('i', c))
            elif op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'): setv(v)
            elif op == 'trunc' and f.name in self.split and i.ty == 'i32':
                out = []
                for c in range(4):
                    e = dict(env); e[i.id] = ('i', c); out.append((e, sp, dict(mem)))
                return out
            else: setv(None)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr'):
            a, b = V(i.ops[0]), V(i.ops[1])
            if a and b and a[0] == 'i' and b[0] == 'i':
                x, y = a[1], b[1]
                w = int(i.ty[1:]) if i.ty[0] == 'i' else 64
                try:
                    c = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                         'xor': lambda: x ^ y, 'shl': lambda: x << y, 'ashr': lambda: x >> y, 'lshr': lambda: (x & ((1 << w) - 1)) >> y}[op]()
                    c &= (1 << w) - 1
                    if c >> (w - 1): c -= 1 << w
                    setv(('i', c))
                except ValueError: setv(None)
            elif a and b and a[0] == 'sp' and b[0] == 'i' and op in ('add', 'sub') and b[1] % 8 == 0:
                setv(('sp', a[1] + (b[1] if op == 'add' else -b[1]) // 8))
            elif op == 'and' and f.name in self.headers and isinstance(i.ops[1], int) and i.ops[1] in (7, 15, 31, 63, 127):
                # a bit field: the same one has the same value along a path
                k = ('h', f.name, self.shape(f, i.ops[0]), i.ops[1])
                if k in mem: setv(mem[k])
                elif sum(1 for x in mem if isinstance(x, tuple) and x[0] == 'h') >= 2: setv(None)
                else:
                    out = []
                    for c in range(8 if i.ops[1] == 7 else 4):
                        e = dict(env); e[i.id] = ('i', c); m = dict(mem); m[k] = ('i', c); out.append((e, sp, m))
                    return out
            else: setv(None)
        elif op == 'icmp':
            a, b = V(i.ops[0]), V(i.ops[1])
            r = None
            if a and b and a[0] == 'i' and b[0] == 'i':
                x, y = a[1], b[1]; m = (1 << 64) - 1
                r = {'eq': x == y, 'ne': x != y, 'sgt': x > y, 'sge': x >= y, 'slt': x < y, 'sle': x <= y,
                     'ugt': (x & m) > (y & m), 'uge': (x & m) >= (y & m), 'ult': (x & m) < (y & m), 'ule': (x & m) <= (y & m)}[i.x]
            elif a and b and a[0] == b[0] == 'sp':
                x, y = a[1], b[1]
                r = {'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y}.get(i.x)
            elif a and b and a[0] == 'sp' and b == ('i', 0) and i.x in ('eq', 'ne'): r = i.x == 'ne'
            setv(None if r is None else ('i', -1 if r else 0))
        elif op == 'select':
            c = V(i.ops[0])
            if c and c[0] == 'i': setv(V(i.ops[1] if c[1] else i.ops[2]))
            else:
                a, b = V(i.ops[1]), V(i.ops[2])
                if a == b: setv(a)
                elif (a and a[0] in ('i', 'sp')) or (b and b[0] in ('i', 'sp')):
                    # split
                    out = []
                    for truth, v in ((True, a), (False, b)):
                        e = dict(env); x = {}; self.refine(f, i.ops[0], truth, x); e.update(x)
                        if v is None: e.pop(i.id, None)
                        else: e[i.id] = v
                        out.append((e, sp, dict(mem)))
                    return out
                else: setv(None)
        elif op == 'call':
            g = i.callee
            if g is None or g.startswith('llvm.'):
                setv(None)
                if g and g.startswith('llvm.mem') and g.split('.')[1] in ('memcpy', 'memmove', 'memset'):
                    a = V(i.ops[0])
                    if a and a[0] == 'sp': mem[a[1]] = ('v', f.name, 'mem')
                return [(env, sp, mem)]
            fn = self.p.funcs.get(g)
            if self.base(g) in TRANSFER:
                k = SENDS.get(self.base(g))
                if k is not None and k < len(i.ops) and self.on_send is not None:
                    self.on_send(f, i, V(i.ops[k]), sp, mem)
                setv(None); return [(env, T, {})]
            if g in self.inter and fn is not None and not fn.decl:
                if fn.name == f.name: raise AnalysisBroken('recursion through ' + g)
                args = [V(o) for o in i.ops]
                res = self.run(g, args, sp, frozenset(mem.items()), depth + 1)
                out = []
                for ret, sp2, memf in res:
                    e = dict(env)
                    if ret is None: e.pop(i.id, None)
                    else: e[i.id] = ret
                    out.append((e, sp2, dict(memf)))
                return out
            if fn is not None and fn.noreturn: return []
            # a callee given the address of stack slots may write them
            for o in i.ops:
                a = V(o)
                if a and a[0] == 'sp' and fn is not None and g in self.writers():
                    mem[a[1]] = ('v', f.name, 'call')
                if a and a[0] == 'a':
                    for k in [k for k in mem if isinstance(k, tuple) and k[:3] == a[:3]]: mem.pop(k)
            setv(None)
        elif op == 'ret':
            v = V(i.ops[0]) if i.ops else None
            results.add((v, sp, frozenset((k, x) for k, x in mem.items() if not (isinstance(k, tuple) and k[1] == f.name))))
            return []
        elif op == 'unreachable':
            return []
        elif op in ('br', 'switch', 'indirectbr'):
            return [(env, sp, mem)]
        else:
            setv(None)
        return [(env, sp, mem)]

    _w = None
    def writers(self):
        return ()
