"""What built-in operations know about the class of an argument when they use it (V14).

Runs the operand-stack interpreter with facts about the values found on the
stack on entry: ('t', k) 'oop' or 'int'; ('c', k) the set of class tests that
succeeded.  Helpers are summarised by outcomes (constant result, facts).
"""
import re
from stackint import StackInterp, T, TRANSFER, Exploded
from cfront import AnalysisBroken

ARG = 100000         # ... found in the context of the caller: ('in', ARG + load)
P0 = 1000            # symbolic arguments of helpers: ('in', P0 + n)
INTKIND = re.compile(r'_gst_(small_integer|integer|number|object|magnitude)_class$')


def isconst(g):
    return g.startswith('_gst_') and (g.endswith('_class') or g in ('_gst_nil_oop', '_gst_true_oop', '_gst_false_oop', '_gst_processor_oop'))


# structures shared by several classes, or named differently from their class
COMPAT = {'gst_cobject': ('c_object',), 'gst_ctype': ('c_type', 'c_scalar_type', 'c_ptr_type', 'c_array_type'),
          'gst_char': ('char', 'unicode_character'), 'gst_compiled_method': ('compiled_method', 'compiled_block', 'compiled_code'),
          'gst_compiled_block': ('compiled_block', 'compiled_method', 'compiled_code'),
          'gst_method_context': ('method_context', 'block_context', 'context_part'), 'gst_block_context': ('method_context', 'block_context', 'context_part'),
          'gst_class': ('class', 'metaclass', 'behavior'), 'gst_metaclass': ('metaclass', 'class', 'behavior')}


# helpers that read the words of an object whatever its class: the caller tests the class
ANYCLASS = {'_gst_mpz_from_oop': 1, '_gst_to_cstring': 0, '_gst_to_byte_array': 0, '_gst_to_wide_cstring': 0}


def fits(struct, facts):
    """did one of the successful tests establish an object with this structure?"""
    if not facts: return False
    names = COMPAT.get(struct)
    if names is None and struct in ('gst_semaphore', 'gst_process', 'gst_block_closure', 'gst_floatd', 'gst_floate', 'gst_floatq',
                                    'gst_c_callable', 'gst_file_stream', 'gst_message', 'gst_continuation', 'gst_association'):
        names = (struct[4:],)
    for c in facts:
        if c in ('receiver', '?', 'same'): return True
        if names is None and c.endswith('_class'): return True
        if names is not None and c in ['_gst_%s_class' % n for n in names]: return True
    return False


class Tags(StackInterp):
    def __init__(self, p, gc):
        super().__init__(p)
        self.gc = gc; self.hits = {}; self.sums = {}; self.busy = set(); self.checked = 0; self.cut = []
        self.flat = set(); self.frame = None

    def run(self, fname, args, sp=0, mem=(), depth=0):
        for mode in (None, self.flat, self.split):
            if mode is self.split: self.flat.discard(fname)
            if mode is not None: mode.add(fname)
            try: return self.run1(fname, args, sp, mem, depth)
            except Exploded as e:
                # a loop: try a few counts, then forget the constants in phi nodes
                if mode is self.split or str(e) != fname: raise

    def merged(self, f, v):
        if v is None or f.name not in self.flat: return v
        if v[0] == 'obj': return ('obj', v[1], None, '')
        return None if v[0] in ('i', 'at', 'a') else v

    # ---------------------------------------------------------------- facts
    def fact(self, mem, k, t):
        """mem with the fact, or None if it contradicts what is known"""
        o = mem.get(('t', k))
        if o is not None: return mem if o == t else None
        if t == 'int' and mem.get(('c', k)) is not None: return None
        m = dict(mem); m['t', k] = t
        return m

    def cfact(self, mem, k, c):
        m = dict(mem)
        m['c', k] = m.get(('c', k), frozenset()) | {c}
        return m

    def assume(self, mem, v, truth):
        """the boolean value v is truth"""
        if v is None: return mem
        if v[0] == 'i': return mem if bool(v[1]) == truth else None
        if v[0] != 'B': return mem
        _, kind, k, x, pol = v
        truth = truth == pol
        if kind == 'tag': return self.fact(mem, k, 'int' if truth else 'oop')
        if kind == 'eq':        # the argument is this constant object
            if x.endswith('_class'):
                if not truth: return mem
                m = self.fact(mem, k, 'oop')
                return m and self.cfact(m, k, x)
            if x in (mem.get(('n' if truth else 'c', k)) or ()): return None
            if not truth:
                m = dict(mem); m['n', k] = m.get(('n', k), frozenset()) | {x}
                return m
            m = self.fact(mem, k, 'oop')
            return m and self.cfact(m, k, x)
        if kind == 'cls':
            if not truth: return mem
            return None if x == '_gst_small_integer_class' else self.cfact(mem, k, x)
        if kind == 'kind':
            if not truth: return mem
            m = self.cfact(mem, k, x)
            return m if INTKIND.match(x) else self.fact(m, k, 'oop') if mem.get(('t', k)) is None else m if mem['t', k] == 'oop' else None
        return mem

    def onedge(self, f, t, s, env, mem):
        if t.op != 'br' or len(t.ops) != 3: return mem
        tr, fa = t.ops[2]['bb'], t.ops[1]['bb']
        if tr == fa: return mem
        return self.assume(mem, self.val(env, t.ops[0]), s == tr)

    # ---------------------------------------------------------------- rules
    def hit(self, f, i, k, what, need, mem):
        self.hits.setdefault((f.name, i.id, k, what, (mem.get(('t', k)), mem.get(('n', k)) or frozenset())), (f, i, k, what, need))

    def deref(self, f, i, k, mem):
        self.checked += 1
        if mem.get(('t', k)) != 'oop': self.hit(f, i, k, 'deref', None, mem)

    def summary(self, g):
        """(needs, outcomes) of a helper: needs {(n, what)}, outcomes [(ret, ((n, key, fact)...))]"""
        if g in self.sums: return self.sums[g]
        f = self.p.funcs[g]
        if g in self.busy: return frozenset(), None
        self.busy.add(g)
        save, cut, chk = self.hits, self.cut, self.checked
        self.hits = {}; self.cut = []
        try:
            res = self.run(g, [('in', P0 + n) if t == 'ptr' else None for n, t in enumerate(f.params)], T)
            outs = {(r if r is not None and r[0] == 'i' else None, frozenset((k, v) for k, v in m if isinstance(k, tuple) and k[0] in ('t', 'c') and k[1] >= P0)) for r, sp, m in res}
            outs = [(r, m) for r, m in outs]
            if len(outs) > 16: outs = None
        except (Exploded, AnalysisBroken) as e:
            outs = None; cut = cut + [(g, str(e))]
        needs = {}
        for (fn, iid, k, what, tf), h in self.hits.items():
            if k >= P0: needs.setdefault((k - P0, what, tf), h)
        self.hits = save; self.cut = cut; self.checked = chk
        self.busy.discard(g)
        self.sums[g] = (needs, outs)
        return self.sums[g]

    def step(self, f, i, env, sp, mem, results, depth):
        V = lambda o: self.val(env, o)
        op = i.op
        def ret(v):
            if v is None: env.pop(i.id, None)
            else: env[i.id] = v
            return [(env, sp, mem)]
        if op in ('trunc', 'sext', 'zext'):
            a = V(i.ops[0])
            if a is not None and a[0] == 'ti': return ret(a)
        elif op not in ('select', 'phi') and not (op == 'store' and (V(i.ops[1]) or ('',))[0] == 'a'):
            # these pass a value on; everything else uses it
            for o in (i.ops if op != 'gep' else [i.x['b']] + [x for x, _ in i.x['v']]):
                a = V(o)
                if a is not None and a[0] == 'ti' and mem.get(('t', a[1])) != 'int': self.hit(f, a[2], a[1], 'toint', None, mem)
        if op == 'load':
            a = V(i.ops[0])
            if isinstance(i.ops[0], dict) and set(i.ops[0]) == {'g'} and isconst(i.ops[0]['g']): return ret(('gv', i.ops[0]['g']))
            if a is not None and a[0] in ('in', 'at'):
                off = a[2] if a[0] == 'at' else 0
                k = a[1]
                if isinstance(i.x, list) and i.x[0] in ('oop_s',) or a[0] == 'at' or i.ty == 'ptr': self.deref(f, i, k, mem)
                return ret(('obj', k, 0) if off == 0 and i.ty == 'ptr' else None)
            if a is not None and a[0] == 'obj' and a[1] == self.frame and a[2] is None and i.ty == 'ptr':
                # an argument in the context of the caller
                k = ARG + i.id
                for z in [z for z in mem if isinstance(z, tuple) and z[0] in ('t', 'c', 'n') and z[1] == k]: mem.pop(z)
                return ret(('in', k))
            if a is not None and a[0] == 'obj': return ret(self.body(f, i, a, mem))
            if a is not None and a[0] == 'cls': return ret(('clsobj', a[1], 0) if a[2] == 0 else None)
            if a is not None and a[0] == 'clsobj': return ret(('sup', a[1]) if i.ty == 'ptr' and a[2] == 16 else None)
        elif op == 'store':
            a = V(i.ops[1])
            if a is not None and a[0] in ('in', 'at'): self.deref(f, i, a[1], mem)
            elif a is not None and a[0] == 'obj': self.body(f, i, a, mem)
        elif op == 'gep':
            b = V(i.x['b'])
            if b is not None and b[0] in ('in', 'at') and not i.x['v']: return ret(('at', b[1], (b[2] if b[0] == 'at' else 0) + i.x['o']))
            if b is not None and b[0] == 'obj':
                t = i.x.get('t') or ''
                return ret(('obj', b[1], b[2] + i.x['o'] if not i.x['v'] else None, t) if b[2] is not None else b)
            if b is not None and b[0] == 'clsobj' and not i.x['v']: return ret(('clsobj', b[1], b[2] + i.x['o']))
            if b is not None and b[0] == 'cls' and not i.x['v']: return ret(('cls', b[1], b[2] + i.x['o']))
            if b is not None and b[0] == 'a' and i.x['v']:
                d = i.x['o']
                for o, sc in i.x['v']:
                    c = V(o)
                    if c is None or c[0] != 'i': d = None; break
                    d += c[1] * sc
                return ret(('a', b[1], b[2], b[3] + d) if d is not None else None)
        elif op == 'and' and i.ty != 'i1':
            a, b = V(i.ops[0]), V(i.ops[1])
            if a is not None and b is not None:
                if a[0] == 'in' and b == ('i', 1): return ret(('bit', a[1]))
                if a[0] == 'in' and b[0] == 'in': return ret(('and', a[1], b[1]))
                if a[0] == 'and' and b == ('i', 1): return ret(('bit2', a[1], a[2]))
        elif op == 'ashr':
            a = V(i.ops[0])
            if a is not None and a[0] == 'in' and V(i.ops[1]) == ('i', 1):
                self.checked += 1
                # a conversion hoisted above the test is harmless: its uses count
                return ret(None if mem.get(('t', a[1])) == 'int' else ('ti', a[1], i))
        elif op in ('trunc', 'zext', 'sext'):
            a = V(i.ops[0])
            if a is not None and a[0] in ('bit', 'bit2', 'B'): return ret(a)
        elif op == 'icmp':
            a, b = V(i.ops[0]), V(i.ops[1])
            if a is not None and b is not None and i.x in ('eq', 'ne'):
                if b[0] in ('in', 'bit', 'bit2', 'cls', 'sup', 'B') : a, b = b, a
                if a[0] == 'bit' and b[0] == 'i': return ret(('B', 'tag', a[1], None, (i.x == 'eq') == bool(b[1])))
                if a[0] == 'bit2' and b[0] == 'i':
                    both = (i.x == 'eq') == bool(b[1]); out = []
                    m = self.fact(mem, a[1], 'int'); m = m and self.fact(m, a[2], 'int')
                    if m is not None: out.append((dict(env, **{}), sp, m)); out[-1][0][i.id] = ('i', -1 if both else 0)
                    for k, o in ((a[1], a[2]), (a[2], a[1])):
                        m = self.fact(mem, k, 'oop')
                        if m is not None:
                            e = dict(env); e[i.id] = ('i', 0 if both else -1); out.append((e, sp, m))
                    return out
                if a[0] == 'B' and b[0] == 'i':
                    return ret(a[:4] + (a[4] == ((i.x == 'eq') == bool(b[1])),))
                if a[0] == 'in' and b[0] == 'gv': return ret(('B', 'eq', a[1], b[1], i.x == 'eq'))
                if a[0] == 'in' and b[0] == 'in' and a[1] == b[1]: return ret(('i', -1 if i.x == 'eq' else 0))
                if a[0] == 'cls' and b[0] == 'gv': return ret(('B', 'cls', a[1], b[1], i.x == 'eq'))
                if a[0] == 'sup' and b[0] == 'gv': return ret(('B', 'cls', a[1], 'subclass of ' + b[1], i.x == 'eq'))
                if a[0] == 'gv' and b[0] == 'gv' and a[1].endswith('_class') and b[1].endswith('_class'):
                    return ret(('i', -1 if (a[1] == b[1]) == (i.x == 'eq') else 0))
                if a[0] == 'cls' and b[0] == 'cls': return ret(('B', 'cls', a[1] if a[1] < b[1] else b[1], 'same', i.x == 'eq'))
        elif op in ('and', 'or') and i.ty == 'i1':
            a, b = V(i.ops[0]), V(i.ops[1])
            if a is not None and a[0] == 'B' or b is not None and b[0] == 'B':
                out = []
                for x, y, o in ((a, b, i.ops[0]), ) if a is not None and a[0] == 'B' else ((b, a, i.ops[1]),):
                    other = i.ops[1] if o is i.ops[0] else i.ops[0]
                    for truth in (True, False):
                        m = self.assume(mem, x, truth)
                        if m is None: continue
                        e = dict(env)
                        v = y if truth == (op == 'and') else ('i', -1 if truth else 0)
                        if v is None:
                            # the other operand decides: refine later from its own value
                            e.pop(i.id, None)
                        else: e[i.id] = v
                        out.append((e, sp, dict(m)))
                return out
        elif op == 'xor' and i.ty == 'i1':
            a = V(i.ops[0])
            if a is not None and a[0] == 'B' and V(i.ops[1]) in (('i', 1), ('i', -1)): return ret(a[:4] + (not a[4],))
        elif op == 'select':
            c = V(i.ops[0])
            if c is not None and c[0] == 'B' or i.ty == 'i1' and (V(i.ops[1]) or ('',))[0] in ('B', 'i') and c is None:
                out = []
                for truth, o in ((True, i.ops[1]), (False, i.ops[2])):
                    m = self.assume(mem, c, truth)
                    if m is None: continue
                    e = dict(env); v = V(o)
                    if c is None:
                        x = {}; self.refine(f, i.ops[0], truth, x); e.update(x)
                    if v is None: e.pop(i.id, None)
                    else: e[i.id] = v
                    out.append((e, sp, dict(m)))
                return out
        elif op == 'call':
            r = self.call(f, i, env, sp, mem, depth)
            if r is not None: return r
        return super().step(f, i, env, sp, mem, results, depth)

    def body(self, f, i, a, mem):
        k = a[1]; off = a[2]
        if off == 8 and i.op == 'load' and i.ty == 'ptr': return ('cls', k, 0)
        t = i.x[0] if isinstance(i.x, list) else ''
        st = a[3] if len(a) > 3 else ''
        if not t.startswith('gst_') and st.startswith('struct.gst_'): t = st[7:]
        if t.startswith('gst_') and off is not None and off >= 16:
            self.checked += 1
            if not fits(t, mem.get(('c', k))): self.hit(f, i, k, 'struct ' + t, t, mem)
        return None

    def call(self, f, i, env, sp, mem, depth):
        V = lambda o: self.val(env, o)
        g = i.callee
        if g is not None and self.base(g) in TRANSFER:
            e = dict(env); e.pop(i.id, None)
            return [(e, T, {k: v for k, v in mem.items() if isinstance(k, tuple) and k[0] in ('t', 'c')})]
        if g is None or g.startswith('llvm.') or g in self.inter: return None
        fn = self.p.funcs.get(g)
        args = [V(o) for o in i.ops]
        if self.base(g) == 'is_a_kind_of' and len(args) == 2 and args[0] == ('gv', '_gst_small_integer_class') and args[1] is not None and args[1][0] == 'gv':
            e = dict(env); e[i.id] = ('i', 1 if INTKIND.match(args[1][1]) else 0)
            return [(e, sp, mem)]
        if not any(a is not None and a[0] in ('in', 'cls', 'obj') for a in args): return None
        if fn is None or fn.noreturn: return None
        def ret(v, m=mem):
            e = dict(env)
            if v is None: e.pop(i.id, None)
            else: e[i.id] = v
            return (e, sp, dict(m))
        # class tests
        b = self.base(g)
        if 'kind_of' in b or b == 'is_a_kind_of':
            c = args[1]
            if args[0] is not None and args[0][0] in ('in', 'cls') and c is not None and c[0] == 'gv':
                return [ret(('B', 'kind', args[0][1], c[1], True))]
            if args[0] is not None and args[0][0] in ('in', 'cls'): return [ret(('B', 'kind', args[0][1], '?', True))]
        if b in ANYCLASS:
            a = args[ANYCLASS[b]]
            if a is not None and a[0] == 'in':
                self.checked += 1
                if mem.get(('t', a[1])) != 'int' and not mem.get(('c', a[1])): self.hit(f, i, a[1], 'number', None, mem)
        if fn.decl: return None
        needs, outs = self.summary(g)
        m0 = dict(mem)
        for (n, what, tf), h in (needs.items() if needs else ()):
            a = args[n] if n < len(args) else None
            if a is None or a[0] != 'in': continue
            k = a[1]; self.checked += 1
            if tf[0] is not None and m0.get(('t', k)) not in (None, tf[0]): continue
            if tf[1] & (m0.get(('c', k)) or frozenset()): continue
            if what == 'deref' and m0.get(('t', k)) != 'oop' or what == 'toint' and m0.get(('t', k)) != 'int' or what.startswith('struct') and not fits(what[7:], m0.get(('c', k))):
                self.hit(f, i, k, what, h, m0)
        if outs is None: return None
        res = []; seen = set()
        for r, facts in outs:
            m = m0
            for (kind, n), v in facts:
                a = args[n - P0] if n - P0 < len(args) else None
                if a is None or a[0] != 'in': continue
                if kind == 't': m = self.fact(m, a[1], v)
                else:
                    for c in v: m = self.cfact(m, a[1], c)
                if m is None: break
            if m is None: continue
            z = (r, frozenset(m.items()))
            if z in seen: continue
            seen.add(z); res.append(ret(r, m))
        return res
