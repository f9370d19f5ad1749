"""Net effect of functions on global stacks and counters (V10)."""
from cfront import AnalysisBroken


def g_of(o):
    return o['g'] if isinstance(o, dict) and set(o) == {'g'} else None


def strip(f, o):
    d = f.defn(o)
    while d is not None and d.op in ('bitcast', 'freeze'):
        o = d.ops[0]; d = f.defn(o)
    return o


def loadg(f, o):
    d = f.defn(strip(f, o))
    return g_of(d.ops[0]) if d is not None and d.op == 'load' else None


def base(f, o):
    o = strip(f, o)
    d = f.defn(o)
    while d is not None and d.op == 'gep':
        o = strip(f, d.x['b']); d = f.defn(o)
    return o


def ispush(f, i, g):
    """store G = x where x->link = load G"""
    x = strip(f, i.ops[0])
    for j in f.instrs():
        if j.op == 'store' and j is not i and base(f, j.ops[1]) == x and loadg(f, j.ops[0]) == g: return True
    return False


def ispop(f, i, g):
    """store G = G->link"""
    d = f.defn(strip(f, i.ops[0]))
    if d is None or d.op != 'load': return False
    b = base(f, d.ops[0])
    return loadg(f, b) == g and base(f, d.ops[0]) != strip(f, d.ops[0]) or loadg(f, d.ops[0]) == g


def step(f, i, g, o=None):
    """constant added by store i to counter g, or None"""
    d = f.defn(strip(f, i.ops[0] if o is None else o))
    if d is not None and d.op in ('add', 'sub') and loadg(f, d.ops[0]) == g and isinstance(d.ops[1], int):
        k = d.ops[1]
        if k >= 1 << 31: k -= 1 << 32
        return -k if d.op == 'sub' else k
    return None


def arms(f, o, seen=None):
    """alternative values of o through selects and phis"""
    seen = set() if seen is None else seen
    o = strip(f, o); d = f.defn(o)
    if d is None or d.op not in ('select', 'phi'): return [o]
    if d.id in seen: return []
    seen.add(d.id)
    return [x for v in (d.ops[1:] if d.op == 'select' else d.ops) for x in arms(f, v, seen)]


SETJMP = ('_setjmp', 'setjmp', '__sigsetjmp')
LONGJMP = ('longjmp', '_longjmp', 'siglongjmp', '__longjmp_chk')


class Nesting:
    MAXSTATES = 4000

    def bufkey(self, f, o):
        """structure that holds the jump buffer o"""
        d = f.defn(strip(f, o))
        if d is not None and d.op == 'gep' and d.x.get('f') and isinstance(d.x['f'][0], list):
            t = d.x['f'][-1][0]
            return t if t and 'interp_jmp_buf' not in t else None
        return None

    def __init__(self, p, gc, exempt=(), pairs=()):
        """pairs: [(resource, opening functions, closing functions, functions that close all)]"""
        self.p = p; self.gc = gc; self.pairsites = 0
        pu = {}; po = {}; up = {}; dn = {}; other = {}
        self.ev = {}                     # (func, instr) -> (resource, delta or 'restore')
        for f in p.funcs.values():
            if f.decl: continue
            for i in f.instrs():
                g = g_of(i.ops[1]) if i.op == 'store' else None
                if g is None or g in exempt: continue
                k = step(f, i, g)
                if k is not None: (up if k > 0 else dn).setdefault(g, []).append((f, i, k))
                elif ispush(f, i, g): pu.setdefault(g, []).append((f, i, 1))
                elif ispop(f, i, g): po.setdefault(g, []).append((f, i, -1))
                elif len(arms(f, i.ops[0])) > 1 and any(step(f, i, g, x) is not None for x in arms(f, i.ops[0])):
                    for x in arms(f, i.ops[0]):
                        k = step(f, i, g, x)
                        if k is not None: (up if k > 0 else dn).setdefault(g, []).append((f, i, k))
                else: other.setdefault(g, []).append((f, i, None))
        self.stacks = sorted(g for g in pu if g in po)
        self.counters = sorted(g for g in up if g in dn and {k for _, _, k in up[g] + dn[g]} == {1, -1})
        self.res = self.stacks + self.counters
        for g in self.res:
            for f, i, k in pu.get(g, []) + po.get(g, []) + up.get(g, []) + dn.get(g, []):
                if len(arms(f, i.ops[0])) > 1 and step(f, i, g) is None and g not in self.stacks:
                    self.ev[(f.name, i.id)] = (g, tuple(step(f, i, g, x) or 0 for x in arms(f, i.ops[0])))
                else: self.ev[(f.name, i.id)] = (g, k)
            for f, i, _ in other.get(g, []):
                self.ev[(f.name, i.id)] = (g, 'set')
        self.callev = {}; self.pairres = []
        for res, op, cl, al in pairs:
            self.pairres.append(res); self.res.append(res)
            for f in p.funcs.values():
                if f.decl: continue
                for i in f.calls():
                    b = p.funcs[i.callee].base if i.callee in p.funcs else i.callee
                    if b in op: self.callev[(f.name, i.id)] = (res, 1)
                    elif b in cl: self.callev[(f.name, i.id)] = (res, -1)
                    elif b in al: self.callev[(f.name, i.id)] = (res, 0)
        self.hidden = {f for _, op, cl, al in pairs for f in op + cl + al}
        # recovery points inside a structure: 1 if it belongs to the caller, 2 if not
        self.guards = sorted({k for f in p.funcs.values() if not f.decl for i in f.calls() if i.callee in SETJMP
                              for k in [self.bufkey(f, i.ops[0])] if k and f.param(base(f, i.ops[0])) is not None})
        for k in self.guards: self.pairres.append('guard:' + k); self.res.append('guard:' + k)
        for f in p.funcs.values():
            if f.decl: continue
            sj = [i for i in f.calls() if i.callee in SETJMP and self.bufkey(f, i.ops[0]) in self.guards]
            for i in sj:
                self.callev[(f.name, i.id)] = ('guard:' + self.bufkey(f, i.ops[0]), 'at', 1 if f.param(base(f, i.ops[0])) is not None else 2)
            for i in f.calls():
                if sj and i.callee and i.callee.startswith('llvm.memcpy'):
                    k = self.bufkey(f, i.ops[0]); d = f.defn(base(f, i.ops[1]))
                    if k in self.guards and d is not None and d.op == 'alloca':
                        self.callev[(f.name, i.id)] = ('guard:' + k, 0)
        self.mayjmp = {}       # function -> guards it can jump to while not guarded itself
        self.summ = {}

    def relevant(self):
        """functions that can touch a resource, bottom-up by strongly connected component"""
        rel = {f for f, _ in self.ev} | {f for f, _ in self.callev} | {f.name for f in self.p.funcs.values() if not f.decl and any(i.callee in LONGJMP for i in f.calls())}
        ch = True
        while ch:
            ch = False
            for f, s in self.gc.cg.items():
                if f not in rel and any(g in rel for g in self.direct(f)): rel.add(f); ch = True
        return rel

    def direct(self, f):
        fn = self.p.funcs[f]
        c = getattr(self, '_dir', None)
        if c is None: c = self._dir = {}
        if f not in c: c[f] = {i.callee for i in fn.calls() if i.callee}
        return c[f]

    def solve(self):
        rel = self.relevant() - self.gc.boot
        self.summ = {f: None for f in rel}
        order = []; seen = set()
        def dfs(f):
            st = [(f, iter(sorted(self.direct(f) & rel)))]; seen.add(f)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(sorted(self.direct(y) & rel)))); break
                else:
                    order.append(x); st.pop()
        for f in sorted(rel):
            if f not in seen: dfs(f)
        self.order = order
        for rounds in range(10):
            ch = False
            for f in order:
                rr, nn, _ = self.analyse(self.p.funcs[f])
                n = self.collapse(f, rr)
                j = {x for kd, _, x in nn if kd == 'jump'}
                if j - self.mayjmp.get(f, set()): self.mayjmp.setdefault(f, set()).update(j); ch = True
                if n != self.summ[f]: self.summ[f] = n; ch = True
            if not ch: break
        else:
            raise AnalysisBroken('nesting summaries do not converge')
        return self.summ

    def collapse(self, f, s):
        """A function with several outcomes is reported itself, not its callers."""
        for k in range(len(self.res)):
            vals = {x[k] for x in s}
            if len(vals) > 1:
                z = 0 if 0 in vals else min(vals, key=abs)
                s = frozenset(x[:k] + (z,) + x[k + 1:] for x in s)
        return s

    def analyse(self, f):
        """({delta tuples at return}, [(kind, instr, resource)])"""
        nres = len(self.res); zero = (0,) * nres; idx = {g: k for k, g in enumerate(self.res)}
        # conditions that are tested more than once
        cnt = {}
        for b in f.blocks:
            t = b[-1]
            if t.op == 'br' and len(t.ops) == 3:
                k = self.condkey(f, t.ops[0])
                if k is not None: cnt[k[0]] = cnt.get(k[0], 0) + 1
        multi = {k for k, n in cnt.items() if n > 1} if len(f.blocks) < 300 else set()
        start = (zero, frozenset(), frozenset())
        IN = [set() for _ in f.blocks]; IN[0].add(start)
        work = [(0, start)]; rets = set(); notes = []; ev = self.ev; wit = {}
        saves = {}
        for i in f.instrs():
            if i.op == 'load' and g_of(i.ops[0]) in idx: saves[i.id] = idx[g_of(i.ops[0])]
        used = set()
        for i in f.instrs():
            if (f.name, i.id) in ev and ev[(f.name, i.id)][1] == 'set':
                d = f.defn(strip(f, i.ops[0]))
                if d is not None and d.id in saves: used.add(d.id)
        n = 0
        while work:
            b, (dl, fa, sv) = work.pop()
            n += 1
            if n > self.MAXSTATES: raise AnalysisBroken('too many nesting states in ' + f.name)
            states = [(dl, fa, sv)]
            dead = False
            for i in f.blocks[b]:
                if i.op == 'load' and i.id in used:
                    states = [(d, a, frozenset(x for x in s if x[0] != i.id) | {(i.id, d[saves[i.id]])}) for d, a, s in states]
                e = ev.get((f.name, i.id))
                if e is not None:
                    k = idx[e[0]]
                    new = []
                    for d, a, s in states:
                        if isinstance(e[1], tuple):
                            new += [(d[:k] + (d[k] + z,) + d[k + 1:], a, s) for z in e[1]]
                            continue
                        if e[1] == 'set':
                            x = f.defn(strip(f, i.ops[0])); v = None
                            if x is not None:
                                for y, z in s:
                                    if y == x.id: v = z
                            if v is None:
                                notes.append(('set', i, e[0])); v = d[k]
                            d = d[:k] + (v,) + d[k + 1:]
                        else: d = d[:k] + (d[k] + e[1],) + d[k + 1:]
                        if abs(d[k]) > 3:
                            notes.append(('loop', i, e[0])); continue
                        new.append((d, a, s))
                    states = new
                elif i.op == 'call' and (i.callee in LONGJMP or i.callee in self.mayjmp):
                    for t in ([self.bufkey(f, i.ops[0])] if i.callee in LONGJMP else self.mayjmp[i.callee]):
                        if t not in self.guards: continue
                        for d, a, s in states:
                            if d[idx['guard:' + t]]: continue
                            notes.append(('jump', i, t))
                            for k, x in enumerate(d):
                                if x and not self.res[k].startswith('guard:'): notes.append(('escape', i, (self.res[k], t)))
                if e is None and ((f.name, i.id) in self.callev or i.op == 'call' and i.callee in self.summ):
                    ce = self.callev.get((f.name, i.id))
                    sm = self.summ.get(i.callee, frozenset([zero]))
                    if ce is not None:
                        k = idx[ce[0]]; new = []
                        for d, a, s in states:
                            v = 0 if ce[1] == 0 else ce[2] if ce[1] == 'at' else d[k] + ce[1]
                            if abs(v) > 3: notes.append(('loop', i, ce[0])); continue
                            new.append((d[:k] + (v,) + d[k + 1:], a, s))
                        states = new
                        if not states: break
                        if sm is not None: sm = frozenset(tuple(0 if self.res[n] in self.pairres else x for n, x in enumerate(q)) for q in sm)
                    if sm is None:
                        g = self.p.funcs[i.callee]
                        sm = frozenset() if g.noreturn else frozenset([zero])
                    new = []
                    for d, a, s in states:
                        for q in sm:
                            d2 = tuple(x + y for x, y in zip(d, q))
                            if max(map(abs, d2)) > 3: notes.append(('loop', i, self.res[max(range(nres), key=lambda z: abs(d2[z]))])); continue
                            new.append((d2, a, s))
                    states = list(dict.fromkeys(new))
                elif i.op == 'call' and i.callee and i.callee in self.p.funcs and self.p.funcs[i.callee].noreturn:
                    states = []
                if not states: break
                if i.op == 'ret':
                    for d, a, s in states:
                        d = tuple(0 if x == 2 and self.res[k].startswith('guard:') else x for k, x in enumerate(d))
                        rets.add(d); wit.setdefault(d, i)
            if not states: continue
            t = f.blocks[b][-1]
            key = self.condkey(f, t.ops[0]) if t.op == 'br' and len(t.ops) == 3 else None
            for n_s, s_ in enumerate(t.succ()):
                for d, a, s in states:
                    a2 = a
                    if key is not None and key[0] in multi:
                        val = (n_s == 0) ^ key[1]
                        if (key[0], not val) in a: continue
                        a2 = a | {(key[0], val)}
                    # facts die where the condition is computed anew
                    defs = {i.id for i in f.blocks[s_]}
                    a2 = frozenset(x for x in a2 if not (isinstance(x[0], int) and x[0] in defs) and
                                   not (isinstance(x[0], tuple) and any(isinstance(z, str) and z[0] == '%' and int(z[1:]) in defs for z in x[0])))
                    st = (d, a2, s)
                    if st not in IN[s_]:
                        IN[s_].add(st); work.append((s_, st))
        return frozenset(rets), notes, wit

    NEG = {'ne': 'eq', 'sge': 'slt', 'sgt': 'sle', 'uge': 'ult', 'ugt': 'ule'}

    def condkey(self, f, o):
        """(key, negated): equal conditions on unchanged values get equal keys"""
        d = f.defn(o)
        if d is None: 
            return (int(o[1:]), False) if isinstance(o, str) and o[0] == '%' else None
        neg = False
        while d is not None and d.op == 'xor' and d.ops[1] in (1, -1, True):
            neg = not neg; o = d.ops[0]; d = f.defn(o)
        if d is None: return (int(o[1:]), neg)
        if d.op == 'icmp' and all(not isinstance(x, dict) for x in d.ops):
            c = d.x
            if c in self.NEG: neg = not neg; c = self.NEG[c]
            return ((c, d.ops[0], d.ops[1]), neg)
        return (d.id, neg)
