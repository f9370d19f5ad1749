"""Meaning of the rewrites of a peephole optimiser over bytecode pairs.

The loop copies pairs of bytes from an input pointer to an output pointer; on
some paths it changes the last pairs written or skips input.  For each path
from the loop header to the next iteration the pairs at the end of the output
followed by the input consumed (before) and the pairs that the path leaves
(after) are run on an abstract stack machine with symbolic operands, and must
have the same effect: stack, variables, line numbers, returns, and a pending
extension byte."""
from bcwalk import Walk, add, const, sym, lin
from cfront import AnalysisBroken

EXT = 55
STORE = {36: ('t', 32), 39: ('r', 35)}
PUSHVAR = {32: 't', 35: 'r'}
PUSH = {33, 34, 44, 45, 46, 56}
NOARG = {48, 50, 51, 52, 53, 56}


class Peep(Walk):
    def __init__(self, f):
        self.f = f; self.known = {}
        idom = f.dominators()
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0 or b not in idom: return False
                b = idom[b]
        # loop that stores bytes: outermost header with two pointer phis
        self.head = None
        for h in range(len(f.blocks)):
            if h not in idom: continue
            if not any(p in idom and dom(h, p) for p in f.preds[h]): continue
            ph = [i for i in f.blocks[h] if i.op == 'phi' and i.ty == 'ptr']
            if len(ph) == 2: self.head = h; self.phis = ph; break
        if self.head is None: raise AnalysisBroken('no loop over bytes in %s' % f.name)

    def conds(self, env, o, want, facts, depth=0):
        """alternatives (lists of atoms) under which the i1 value o is want"""
        if isinstance(o, bool): return [[]] if o == want else []
        if isinstance(o, int): return [[]] if bool(o) == want else []
        i = self.f.defn(o)
        if i is None or depth > 10: return [[]]
        if i.op == 'icmp':
            a, b = (self.val(env, x) for x in i.ops)
            return [[(i.x if want else self.neg(i.x), a, b)]]
        if i.op == 'xor' and True in i.ops or i.op == 'xor' and 1 in i.ops:
            return self.conds(env, [x for x in i.ops if not isinstance(x, (int, bool))][0], not want, facts, depth + 1)
        if i.op in ('and', 'or'): c = [i.ops[0], i.ops[1]]; conj = i.op == 'and'
        elif i.op == 'select' and i.ops[2] in (False, 0) and not isinstance(i.ops[2], str): c = [i.ops[0], i.ops[1]]; conj = True
        elif i.op == 'select' and i.ops[1] in (True, 1, -1) and not isinstance(i.ops[1], str): c = [i.ops[0], i.ops[2]]; conj = False
        elif i.op == 'phi': return [[]]
        else: return [[]]
        x, y = c
        T = lambda v: self.conds(env, v, True, facts, depth + 1)
        F = lambda v: self.conds(env, v, False, facts, depth + 1)
        if conj == want:                         # both have the value
            g = T if want else F
            return [p + q for p in g(x) for q in g(y)]
        g, h = (F, T) if conj else (T, F)
        return g(x) + [p + q for p in h(x) for q in g(y)]

    @staticmethod
    def neg(p):
        return {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
                'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[p]

    def put(self, facts, atom):
        """facts with the atom, or None if it contradicts; facts: ({byte: value}, {(byte, const)} different, [pointer atoms])"""
        eq, ne, ptr = facts
        p, a, b = atom
        a, b = self.res(eq, a), self.res(eq, b)
        d = add(a, b, -1)
        if not d[0]:
            x = d[1]
            ok = {'eq': x == 0, 'ne': x != 0, 'ult': x < 0, 'ule': x <= 0, 'ugt': x > 0, 'uge': x >= 0, 'slt': x < 0, 'sle': x <= 0, 'sgt': x > 0, 'sge': x >= 0}[p]
            return facts if ok else None
        one = [x for x in (a, b) if len(x[0]) == 1 and next(iter(x[0]))[0][0] == 'ld' and next(iter(x[0]))[1] == 1]
        if p == 'eq' and one:
            x = one[0]; o = b if x is a else a
            (t, _), = x[0]
            v = add(o, const(x[1]), -1)
            if not v[0]:
                if (t, v[1]) in ne: return None
            eq = dict(eq); eq[t] = v
            for t2, v2 in list(eq.items()): eq[t2] = self.res({k: w for k, w in eq.items() if k != t2}, v2)
            return eq, ne, ptr
        if p == 'ne' and one:
            x = one[0]; o = b if x is a else a
            (t, _), = x[0]
            v = add(o, const(x[1]), -1)
            if not v[0]: return eq, ne | {(t, v[1])}, ptr
            return facts
        if not one and p == 'eq': return eq, ne, ptr + (d,)
        if p in ('ult', 'slt'): return eq, ne, ptr + (('less', d),)
        if p in ('uge', 'sge'): return eq, ne, ptr + (('atleast', d),)
        if p in ('ule', 'sle'): return eq, ne, ptr + (('atleast', add(b, a, -1)),)
        if p in ('ugt', 'sgt'): return eq, ne, ptr + (('less', add(b, a, -1)),)
        if p == 'ne' and not one: return eq, ne, ptr + (('not', d),)
        return facts

    def res(self, eq, v):
        for _ in range(4):
            ch = False
            for t, c in v[0]:
                if t in eq: v = add(add(v, (frozenset({(t, c)}), 0), -1), (frozenset((x, c * k) for x, k in eq[t][0]), c * eq[t][1])); ch = True; break
            if not ch: return v
        return v

    def paths(self, limit=400000):
        """[(facts, {address: byte value} stored, {phi: final value}, terminator)]"""
        f = self.f; out = []
        env0 = {i.id: sym('phi', i.id) for i in self.phis}
        todo = [(self.head, None, env0, {}, ({}, frozenset(), ()), {}, 0)]
        n = 0
        while todo:
            n += 1
            if n > limit: raise AnalysisBroken('too many paths in %s' % f.name)
            b, prev, env, mem, facts, seen, at0 = todo.pop()
            env = dict(env); mem = dict(mem); new = {}
            for i in f.blocks[b]:
                if i.op != 'phi' or at0: break
                if b == self.head and prev is None: continue
                for pb, o in zip(i.x, i.ops):
                    if pb == prev: new[i.id] = self.val(env, o)
            env.update(new); t = f.term(b); dead = False
            for at, i in enumerate(f.blocks[b]):
                if i.op == 'phi' or i is t or at < at0: continue
                if i.op == 'select' and i.ty != 'i1':
                    for want in (True, False):
                        for atoms in self.conds(env, i.ops[0], want, facts):
                            fa = facts
                            for a in atoms:
                                fa = self.put(fa, a)
                                if fa is None: break
                            if fa is None: continue
                            todo.append((b, prev, env | {i.id: self.val(env, i.ops[1 if want else 2])}, mem, fa, seen, at + 1))
                    dead = True; break
                if i.op == 'store': mem[self.val(env, i.ops[1])] = self.res(facts[0], self.val(env, i.ops[0])); continue
                if i.op == 'load':
                    a = self.val(env, i.ops[0])
                    env[i.id] = mem[a] if a in mem else self.res(facts[0], sym('ld', i.ty, a)); continue
                if i.op == 'call':
                    if i.callee in ('abort', '__assert_fail'): dead = True; break
                    env[i.id] = sym('v', i.id); continue
                env[i.id] = self.ev(env, i)
            if dead or t.op == 'unreachable': continue
            if t.op == 'ret': out.append((facts, mem, env, t, b)); continue
            if t.op == 'br' and len(t.ops) == 3:
                s = t.succ(); nxt = []
                for want, dst in ((True, s[0]), (False, s[1])):
                    for atoms in self.conds(env, t.ops[0], want, facts):
                        fa = facts
                        for at in atoms:
                            fa = self.put(fa, at)
                            if fa is None: break
                        if fa is not None: nxt.append((dst, fa))
            elif t.op == 'switch':
                v = self.val(env, t.ops[0]); o = t.ops; nxt = []; df = facts
                for j in range(2, len(o) - 1, 2):
                    fa = self.put(facts, ('eq', v, const(o[j])))
                    if fa is not None: nxt.append((o[j + 1]['bb'], fa))
                    df = df and self.put(df, ('ne', v, const(o[j])))
                if df is not None: nxt.append((o[1]['bb'], df))
            else: nxt = [(s, facts) for s in f.succs(b)]
            for s, fa in nxt:
                if s == self.head:
                    nv = {}
                    for i in self.phis:
                        for pb, o in zip(i.x, i.ops):
                            if pb == b: nv[i.id] = self.val(env, o)
                    out.append((fa, mem, nv, t, b)); continue
                c = seen.get((b, s), 0)
                if c >= 2: continue
                todo.append((s, b, env, mem, fa, seen | {(b, s): c + 1}, 0))
        return out


class Machine:
    def __init__(self, pending):
        self.pending = pending; self.stack = []; self.below = 0; self.vars = {}; self.trace = []; self.done = False

    def pop(self):
        if self.stack: return self.stack.pop()
        self.below += 1
        return ('under', self.below)

    def step(self, op, arg):
        if self.done: self.trace.append(('after return', op, arg)); return
        if op == EXT: self.pending = self.pending + (arg,); return
        a = (self.pending, arg if op not in NOARG else 0); self.pending = ()
        if op in PUSHVAR: self.stack.append(self.vars.get((PUSHVAR[op], a), ('var', PUSHVAR[op], a)))
        elif op in STORE: v = self.pop(); self.stack.append(v); self.vars[(STORE[op][0], a)] = v
        elif op == 48: self.pop()
        elif op == 52: v = self.pop(); self.stack += [v, v]
        elif op == 54: self.trace.append(('line', a))
        elif op in (50, 51): self.trace.append(('return', op, self.pop())); self.done = True; self.stack = []; self.below = 0
        elif isinstance(op, int) and op in PUSH: self.stack.append(('value', op, a))
        else:
            self.trace.append(('operation', op, a, tuple(self.stack), self.below, tuple(sorted(self.vars.items(), key=repr))))
            self.stack = []; self.below = 0; self.vars = {}
        # what is popped and pushed back unchanged is no effect
        while self.stack and self.stack[0] == ('under', self.below) and self.below:
            self.stack.pop(0); self.below -= 1

    def state(self): return self.pending, tuple(self.stack), self.below, self.vars, self.trace


def check(f):
    """[(ok, line, text)] for every path of the loop"""
    w = Peep(f)
    paths = w.paths()
    # output: the pointer whose bytes are written; input: the one that is switched on
    ids = [i.id for i in w.phis]
    def off(v, q):
        d = add(v, sym('phi', q), -1)
        return d[1] if not d[0] else None
    stores = [a for _, mem, _, _, _ in paths for a in mem]
    outp = [q for q in ids if any(off(a, q) is not None for a in stores)]
    if len(outp) != 1: raise AnalysisBroken('output of %s not recognised' % f.name)
    O = outp[0]; I = [q for q in ids if q != O][0]
    res = []
    for (eq, ne, ptr), mem, nv, t, b in paths:
        if t.op == 'ret' or O not in nv or I not in nv: continue
        do, di = off(nv[O], O), off(nv[I], I)
        if do is None or di is None: raise AnalysisBroken('path of %s with unknown pointers %r' % (f.name, nv))
        # bytes of the output that the path has looked at
        offs = {do}
        for t_, v in eq.items():
            if t_[0] == 'ld':
                o = off(t_[2], O)
                if o is not None: offs.add(o)
                for x, _ in v[0]:
                    if x[0] == 'ld' and off(x[2], O) is not None: offs.add(off(x[2], O))
        for a in mem:
            o = off(a, O)
            if o is None: raise AnalysisBroken('store of %s outside the output' % f.name)
            offs.add(o)
        S = min(min(offs), 0); S -= S % 2
        pend = ('extension',)
        tb = ('ld', 'i8', add(sym('phi', O), const(S - 2)))
        if (tb, EXT) in ne: pend = ()
        if tb in eq and not eq[tb][0] and eq[tb][1] != EXT: pend = ()
        # distance of the output from the start of the block: contradictory tests
        lo, hi, excl = 0, 1 << 30, set()
        for d in ptr:
            k, v = d if isinstance(d[0], str) else ('eq', d)
            dd = dict(v[0]); s = dd.get(('phi', O))
            if s not in (1, -1) or len(dd) != 2 or ('phi', I) in dd: continue
            other = [x for x in dd if x != ('phi', O)][0]
            if other != ('v', 0): continue
            if k == 'not': excl.add(-v[1] * s)
            elif k == 'eq': lo = max(lo, -v[1] * s); hi = min(hi, -v[1] * s)
            elif s == 1 and k == 'less': hi = min(hi, -v[1] - 1)
            elif s == 1 and k == 'atleast': lo = max(lo, -v[1])
            elif s == -1 and k == 'less': lo = max(lo, v[1] + 1)
            elif s == -1 and k == 'atleast': hi = min(hi, v[1])
        lo += lo & 1; hi -= hi & 1
        while lo in excl: lo += 2
        if lo > hi: continue
        for d in ptr:
            if d[0] in ('atleast', 'not'): continue
            if d[0] == 'less':
                dd = dict(d[1][0])
                if dd.get(('phi', O)) == 1 and len(dd) == 2 and S - d[1][1] <= 2: pend = ()
                continue
            # output + S is where the block starts
            for s in (1, -1):
                dd = dict(d[0])
                if dd.get(('phi', O)) == s and len(dd) == 2 and d[1] * s == S: pend = ()
        def byte(q, o): return w.res(eq, sym('ld', 'i8', add(sym('phi', q), const(o))))
        def code(v): return v[1] if not v[0] else v
        bt = []; at = []
        for o in range(S, 0, 2): bt.append((code(byte(O, o)), byte(O, o + 1)))
        for o in range(0, di, 2): bt.append((code(byte(I, o)), byte(I, o + 1)))
        for o in range(S, do, 2):
            g = lambda x: mem.get(add(sym('phi', O), const(x)), byte(O, x))
            at.append((code(w.res(eq, g(o))), w.res(eq, g(o + 1))))
        # a return that follows in the input and has been looked at
        o = di
        while ('ld', 'i8', add(sym('phi', I), const(o))) in eq and o < di + 8:
            x = (code(byte(I, o)), byte(I, o + 1)); bt.append(x); at.append(x); o += 2
        if any(x[0] == EXT and y[0] in NOARG for x, y in zip(bt, bt[1:])): continue      # never written by the compiler
        if bt and bt[0][0] in NOARG: pend = ()       # these are never extended
        before = Machine(pend); after = Machine(pend)
        for x in bt: before.step(*x)
        for x in at: after.step(*x)
        ok = before.state() == after.state()
        res.append((ok, t.line, bt, at))
    return res


class Emit(Peep):
    """stores of a function that appends a bytecode, for a constant operand"""
    def __init__(self, f, opcode, operand):
        self.f = f; self.known = {}; self.head = -1; self.phis = []
        self.init = {0: opcode, 1: const(operand)}

    def bytes(self):
        """the sequences of bytes stored at consecutive addresses, one for each path"""
        out = set()
        f = self.f
        todo = [(0, None, dict(self.init), {}, ({}, frozenset(), ()), {})]
        n = 0
        while todo:
            n += 1
            if n > 3000: raise AnalysisBroken('too many paths in %s' % f.name)
            b, prev, env, mem, facts, seen = todo.pop()
            env = dict(env); mem = dict(mem); new = {}
            for i in f.blocks[b]:
                if i.op != 'phi': break
                for pb, o in zip(i.x, i.ops):
                    if pb == prev: new[i.id] = self.val(env, o)
            env.update(new); t = f.term(b); dead = False
            for i in f.blocks[b]:
                if i.op == 'phi' or i is t: continue
                if i.op == 'store':
                    a = self.val(env, i.ops[1]); v = self.val(env, i.ops[0])
                    mem.pop(a, None); mem[a] = v; continue
                if i.op == 'load':
                    a = self.val(env, i.ops[0])
                    env[i.id] = mem[a] if a in mem else sym('ld', i.ty, a); continue
                if i.op == 'call':
                    if i.callee in ('abort', '__assert_fail'): dead = True; break
                    env[i.id] = sym('v', i.id); continue
                env[i.id] = self.ev(env, i)
            if dead or t.op == 'unreachable': continue
            if t.op == 'ret':
                rows = {}
                for a, v in mem.items(): rows.setdefault(a[0], []).append((a[1], v))
                row = max(rows.values(), key=len) if rows else []
                out.add(tuple(v for _, v in sorted(row, key=lambda x: x[0]))); continue
            if t.op == 'br' and len(t.ops) == 3:
                v = self.val(env, t.ops[0]); s = t.succ()
                nxt = s if v[0] else [s[0] if v[1] else s[1]]
            else: nxt = f.succs(b)
            for s in nxt:
                c = seen.get((b, s), 0)
                if c < 6: todo.append((s, b, env, mem, facts, seen | {(b, s): c + 1}))
        return out
