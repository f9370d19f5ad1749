"""Incubator (temporary roots) discipline: which functions leave entries behind."""
from cfront import AnalysisBroken
from nesting import strip


def field(o, g='_gst_mem'):
    if isinstance(o, dict) and o.get('ce') == 'gep' and isinstance(o['gep']['b'], dict) and o['gep']['b'].get('g') == g and not o['gep']['v']:
        return o['gep']['o']
    return None


class Incubator:
    def __init__(self, p, gc):
        self.p = p; self.gc = gc
        adds = {}; subs = {}
        for f in p.funcs.values():
            if f.decl: continue
            for i in f.instrs():
                if i.op == 'store':
                    o = field(i.ops[1])
                    d = f.defn(i.ops[0])
                    if o is not None and d is not None and d.op == 'gep' and not d.x['v'] and d.x['o'] == 8:
                        b = f.defn(d.x['b'])
                        if b is not None and b.op == 'load' and field(b.ops[0]) == o: adds.setdefault(o, set()).add(f.name)
                elif i.op == 'sub':
                    a, b = (self.ldfield(f, x) for x in i.ops)
                    if a is not None and b is not None: subs.setdefault((a, b), set()).add(f.name)
        c = [(len(adds[a]), a, b) for (a, b), s in subs.items() if a in adds and len(s) > 5]
        if not c: raise AnalysisBroken('incubator not recognised')
        _, self.ptr, self.base = max(c)
        self.summ = {}
        self.addsites = 0; self.saves = 0; self.restores = 0

    def ldfield(self, f, o):
        d = f.defn(o)
        if d is not None and d.op == 'ptrtoint': d = f.defn(d.ops[0])
        if d is not None and d.op == 'load': return field(d.ops[0])
        return None

    def kind(self, f, i):
        """('save', id) / ('add',) / ('restore', value) / None"""
        if i.op == 'sdiv' and i.ops[1] == 8:
            d = f.defn(i.ops[0])
            if d is not None and d.op == 'sub' and self.ldfield(f, d.ops[0]) == self.ptr and self.ldfield(f, d.ops[1]) == self.base:
                return ('save', i.id)
        if i.op == 'store' and field(i.ops[1]) == self.ptr:
            d = f.defn(i.ops[0])
            if d is not None and d.op == 'gep':
                b = f.defn(d.x['b'])
                if b is not None and b.op == 'load' and field(b.ops[0]) == self.ptr: return ('add',)
                if b is not None and b.op == 'load' and field(b.ops[0]) == self.base and d.x['v']:
                    return ('restore', d.x['v'][0][0])
            return ('reset',)
        return None

    def solve(self):
        p = self.p
        rel = set()
        self.kinds = {}
        for f in p.funcs.values():
            if f.decl or f.name in self.gc.boot: continue
            ks = {i.id: k for i in f.instrs() for k in [self.kind(f, i)] if k}
            if ks: self.kinds[f.name] = ks; rel.add(f.name)
            for k in ks.values():
                if k[0] == 'add': self.addsites += 1
                elif k[0] == 'save': self.saves += 1
                elif k[0] == 'restore': self.restores += 1
        # helpers that restore a level they are given
        for f in p.funcs.values():
            ks = self.kinds.get(f.name, {})
            if ks and all(k[0] == 'restore' and f.param(strip(f, k[1])) is not None for k in ks.values()):
                par = {f.param(strip(f, k[1])) for k in ks.values()}
                if len(par) == 1 and len(f.blocks) == 1:
                    for c in p.funcs.values():
                        if c.decl: continue
                        for i in c.calls():
                            if i.callee == f.name: self.kinds.setdefault(c.name, {})[i.id] = ('restore', i.ops[par.copy().pop()])
        self._depth()
        self.dirty = {}         # function -> witness: leaves entries on some path
        self.strong = {}        # function -> restores to the level of a parameter
        ch = True
        while ch:
            ch = False
            for f in p.funcs.values():
                if f.decl or f.name in self.gc.boot or f.name in self.dirty: continue
                if f.name not in self.kinds and not any(i.callee in self.dirty for i in f.calls()): continue
                w = self.analyse(f)
                if w is not None: self.dirty[f.name] = w; ch = True
        return self.dirty

    def _depth(self):
        """net change of the number of open scopes made by each function"""
        p = self.p; self.steps = {}; self.net = {}; self.unbalanced = {}
        for f in p.funcs.values():
            if f.decl: continue
            for i in f.instrs():
                if i.op != 'store' or field(i.ops[1]) is None: continue
                d = f.defn(i.ops[0]); c = 0
                while d is not None and d.op in ('add', 'sub') and isinstance(d.ops[1], int):
                    c += d.ops[1] if d.op == 'add' else -d.ops[1]; d = f.defn(d.ops[0])
                if d is not None and d.op == 'load' and field(d.ops[0]) == field(i.ops[1]):
                    self.steps.setdefault(field(i.ops[1]), {}).setdefault(f.name, {})[i.id] = (c, d.id)
        n = {o: sum(1 for g, k in self.kinds.items() if any(x[0] == 'save' for x in k.values()) and any(v[0] > 0 for v in s.get(g, {}).values())) for o, s in self.steps.items()}
        self.counter = max(n, key=n.get) if n else None
        if self.counter is None or n[self.counter] < 5: raise AnalysisBroken('scope counter of the incubator not recognised')
        st = self.steps[self.counter]
        todo = [f for f in p.funcs.values() if not f.decl]
        ch = True; rounds = 0
        while ch:
            ch = False; rounds += 1
            if rounds > 20: raise AnalysisBroken('incubator depths do not converge')
            for f in todo:
                if f.name in self.unbalanced: continue
                if f.name not in st and not any(self.net.get(i.callee) for i in f.calls()): continue
                v, w = self._net(f, st.get(f.name, {}))
                if len(v) > 1: self.unbalanced[f.name] = (sorted(v), w); v = {0}
                v = next(iter(v), 0)
                if self.net.get(f.name, 0) != v: self.net[f.name] = v; ch = True

    def _net(self, f, st):
        # the counter may be read once and written several times
        loads = {v[1] for v in st.values()}
        z = (0, ())
        IN = [set() for _ in f.blocks]; IN[0].add(z); work = [(0, z)]; out = {}
        while work:
            b, (n, ld) = work.pop(); dead = False; ld = dict(ld)
            for i in f.blocks[b]:
                if i.id in loads: ld[i.id] = n
                elif i.id in st: n = ld.get(st[i.id][1], n) + st[i.id][0]
                elif i.op == 'call':
                    n += self.net.get(i.callee, 0)
                    g = self.p.funcs.get(i.callee)
                    if g is not None and g.noreturn: dead = True; break
                elif i.op == 'ret': out.setdefault(n, i)
            if dead: continue
            if abs(n) > 6: out.setdefault(n, f.blocks[b][-1]); continue
            z = (n, tuple(sorted(ld.items())))
            for s in f.succs(b):
                if z not in IN[s]: IN[s].add(z); work.append((s, z))
        k = [x for x in out if x] or [0]
        return set(out), out.get(k[0])

    def analyse(self, f):
        """None, or the instruction that added an entry still there at a return"""
        ks = self.kinds.get(f.name, {})
        # state: (witness or None, frozenset of (save id, witness))
        IN = [set() for _ in f.blocks]; IN[0].add((None, frozenset())); work = [(0, (None, frozenset()))]
        n = 0
        while work:
            b, st = work.pop(); n += 1
            if n > 20000: raise AnalysisBroken('too many incubator states in ' + f.name)
            w, sv = st; dead = False
            for i in f.blocks[b]:
                k = ks.get(i.id)
                if k:
                    if k[0] == 'save': sv = frozenset(x for x in sv if x[0] != i.id) | {(i.id, w)}
                    elif k[0] == 'add': w = w if w is not None else i.id
                    elif k[0] == 'restore':
                        srcs = self.sources(f, k[1])
                        if all(x in dict(sv) for x in srcs) and srcs:
                            v = [dict(sv)[x] for x in srcs]
                            w = next((x for x in v if x is not None), None)
                        elif None in srcs: w = None      # level passed in by the caller
                elif i.op == 'call':
                    if i.callee in self.dirty and w is None: w = i.id
                    elif i.callee and i.callee in self.p.funcs and self.p.funcs[i.callee].noreturn: dead = True; break
                elif i.op == 'ret' and w is not None: return f.ins[w]
            if dead: continue
            for s in f.succs(b):
                ns = (w, sv)
                if ns not in IN[s]: IN[s].add(ns); work.append((s, ns))
        return None

    def unclosed(self, f):
        """a return reached while a scope opened here still holds roots added since, or None"""
        ks = self.kinds.get(f.name, {})
        IN = [set() for _ in f.blocks]; IN[0].add(()); work = [(0, ())]; n = 0
        while work:
            b, st = work.pop(); n += 1; dead = False
            if n > 20000: raise AnalysisBroken('too many incubator states in ' + f.name)
            for i in f.blocks[b]:
                k = ks.get(i.id)
                if k and k[0] == 'save': st = tuple(x for x in st if x[0] != i.id) + ((i.id, None),)
                elif k and k[0] == 'add': st = tuple((a, w if w is not None else i.id) for a, w in st)
                elif k and k[0] == 'restore':
                    src = set(self.sources(f, k[1]))
                    pos = [j for j, (a, _) in enumerate(st) if a in src]
                    if pos: st = st[:min(pos)]
                elif i.op == 'call':
                    if i.callee in self.dirty: st = tuple((a, w if w is not None else i.id) for a, w in st)
                    elif i.callee and i.callee in self.p.funcs and self.p.funcs[i.callee].noreturn: dead = True; break
                elif i.op == 'ret':
                    for a, w in st:
                        if w is not None: return f.ins[w]
            if dead: continue
            for s in f.succs(b):
                if st not in IN[s]: IN[s].add(st); work.append((s, st))
        return None

    def sources(self, f, o, seen=None):
        """save instructions a level comes from; None: from outside the function"""
        seen = set() if seen is None else seen
        d = f.defn(strip(f, o))
        if d is None or d.op in ('load', 'call'): return [None]
        if d.id in seen: return []
        seen.add(d.id)
        if d.op == 'phi': return [x for v in d.ops for x in self.sources(f, v, seen)]
        if d.op == 'select': return [x for v in d.ops[1:] for x in self.sources(f, v, seen)]
        return [d.id]
