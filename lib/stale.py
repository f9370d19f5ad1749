"""Stale object-body addresses (V03)."""
from gcflow import GC, is_body_load, is_body_store
from cfront import AnalysisBroken


class Stale:
    # globals that cache an address inside an object body
    def __init__(self, p, gc):
        self.p = p; self.gc = gc
        self.bodyglobals = set(); self.bodyparams = set(); self.bodyret = set()
        self.setbody = set(); self.made = {}
        self.cls = {}       # func -> set of ssa ids that are body addresses
        self._classify()

    def _ops(self, i):
        if i.op == 'gep': return [i.x['b']]
        if i.op == 'phi': return i.ops
        if i.op == 'select': return i.ops[1:]
        if i.op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'): return i.ops[:1]
        return []

    def _classify(self):
        p = self.p
        ch = True
        while ch:
            ch = False
            for f in p.funcs.values():
                if f.decl or f.name in self.gc.boot: continue
                s = set(self.made.get(f.name, ())) | set(k for k in range(len(f.params)) if (f.name, k) in self.bodyparams)
                grew = True
                def isb(o): return isinstance(o, str) and o[0] == '%' and int(o[1:]) in s
                while grew:
                    grew = False
                    for i in f.instrs():
                        if i.id in s: continue
                        b = False
                        if is_body_load(i): b = True
                        elif i.op == 'load' and isinstance(i.ops[0], dict) and i.ops[0].get('g') in self.bodyglobals: b = True
                        elif i.op == 'call' and i.callee in self.bodyret: b = True
                        elif i.op == 'ptrtoint': b = False
                        elif any(isb(o) for o in self._ops(i)): b = True
                        elif i.op in ('add', 'sub') and False: b = True
                        if b: s.add(i.id); grew = True
                # what becomes the body of an object is one already
                put = [i.ops[0] for i in f.instrs() if is_body_store(i)]
                put += [i.ops[k] for i in f.calls() for g, k in self.setbody if i.callee == g and k < len(i.ops)]
                for o in put:
                    k = f.param(o)
                    if k is not None and (f.name, k) not in self.setbody: self.setbody.add((f.name, k)); ch = True
                    if isinstance(o, str) and o[0] == '%' and int(o[1:]) not in s: s.add(int(o[1:])); self.made.setdefault(f.name, set()).add(int(o[1:])); ch = True
                if s != self.cls.get(f.name):
                    self.cls[f.name] = s; ch = True
                for i in f.instrs():
                    if i.op == 'call' and i.callee in p.funcs and not p.funcs[i.callee].decl:
                        g = p.funcs[i.callee]
                        for k, o in enumerate(i.ops[:len(g.params)]):
                            if isb(o) and (g.name, k) not in self.bodyparams:
                                self.bodyparams.add((g.name, k)); ch = True
                    elif i.op == 'ret' and i.ops and isb(i.ops[0]) and f.name not in self.bodyret:
                        self.bodyret.add(f.name); ch = True
                    elif i.op == 'store' and isb(i.ops[0]) and isinstance(i.ops[1], dict) and 'g' in i.ops[1]:
                        g = i.ops[1]['g']
                        if g not in self.bodyglobals:
                            self.bodyglobals.add(g); ch = True

    def analyse(self, f):
        """yield (kind, use instr, gc call instr, stale id)"""
        s = self.cls.get(f.name, set())
        if not s: return
        gcs = {}
        for i in f.calls():
            g = self.gc.gc_call(f, i)
            if g: gcs[i.id] = g
        if not gcs: return
        # dataflow: stale: id -> gc call id (first found)
        n = len(f.blocks)
        live = self.liveness(f, s)
        IN = [None] * n
        IN[0] = {}
        work = [0]; res = {}
        while work:
            b = work.pop()
            st = dict(IN[b])
            out0 = self.transfer(f, b, st, s, gcs, live, None)
            for t in f.succs(b):
                out = self.edge(f, b, t, out0)
                # phis of t
                new = {k: v for k, v in out.items() if k in live[t]}
                for i in f.blocks[t]:
                    if i.op != 'phi': break
                    if i.id not in s: continue
                    new.pop(i.id, None)
                for i in f.blocks[t]:
                    if i.op != 'phi': break
                    if i.id not in s: continue
                    for pb, o in zip(i.x, i.ops):
                        if pb == b and isinstance(o, str) and o[0] == '%' and int(o[1:]) in out:
                            new[i.id] = out[int(o[1:])]
                if IN[t] is None:
                    IN[t] = new; work.append(t)
                else:
                    ext = {k: v for k, v in new.items() if k not in IN[t]}
                    if ext: IN[t].update(ext); work.append(t)
        for b in range(n):
            if IN[b] is None: continue
            hits = []
            self.transfer(f, b, dict(IN[b]), s, gcs, live, hits)
            yield from hits

    def root(self, f, o):
        """base of a chain of constant/variable offsets"""
        while True:
            d = f.defn(o)
            if d is None or d.op not in ('gep', 'bitcast', 'freeze'): return o
            o = self._ops(d)[0]

    def edge(self, f, b, t, st):
        """An old address found equal to a freshly loaded one is current."""
        if not st: return st
        term = f.term(b)
        if term.op != 'br' or len(term.ops) != 3: return st
        c = f.defn(term.ops[0])
        if c is None or c.op != 'icmp' or c.x not in ('eq', 'ne'): return st
        tr, fa = term.succ()
        if tr == fa or t != (tr if c.x == 'eq' else fa): return st
        a, z = c.ops
        def stale(o): return isinstance(o, str) and o[0] == '%' and int(o[1:]) in st
        if stale(a) == stale(z): return st
        old, new = (a, z) if stale(a) else (z, a)
        d = f.defn(new)
        if d is None or int(new[1:]) not in self.cls.get(f.name, ()): return st
        r = self.root(f, old)
        return {k: v for k, v in st.items() if self.root(f, '%%%d' % k) != r}

    def transfer(self, f, b, st, s, gcs, live, hits):
        defined = set()
        # ids of s available: all defined on the way; staleness applies to those live
        avail = set(live[b]) & s
        for i in f.blocks[b]:
            if i.op == 'phi':
                if i.id in s: avail.add(i.id)
                continue
            if hits is not None:
                if i.op == 'load': us = [i.ops[0]]
                elif i.op == 'store': us = [i.ops[1]]
                elif i.op == 'call': us = list(i.ops)
                else: us = []
                for o in us:
                    if isinstance(o, str) and o[0] == '%' and int(o[1:]) in st:
                        hits.append((i, f.ins[st[int(o[1:])]], int(o[1:])))
            if i.id in gcs:
                for k in avail:
                    if k not in st: st[k] = i.id
            if i.id in s:
                st.pop(i.id, None)
                if not is_body_load(i) and i.op not in ('load', 'call'):
                    for o in self._ops(i):
                        if isinstance(o, str) and o[0] == '%' and int(o[1:]) in st:
                            st[i.id] = st[int(o[1:])]
                avail.add(i.id)
        return st

    def liveness(self, f, s):
        n = len(f.blocks)
        use = [set() for _ in range(n)]; de = [set() for _ in range(n)]; phiuse = [set() for _ in range(n)]
        def ids(o, out):
            if isinstance(o, str) and o[0] == '%': out.add(int(o[1:]))
            elif isinstance(o, dict):
                for v in o.values(): ids(v, out)
            elif isinstance(o, list):
                for v in o: ids(v, out)
        for b in range(n):
            for i in f.blocks[b]:
                if i.op == 'phi':
                    for pb, v in zip(i.x, i.ops): ids(v, phiuse[pb])
                else:
                    u = set(); ids(i.ops, u)
                    if i.op in ('call', 'gep'): ids(i.x, u)
                    use[b] |= u - de[b]
                de[b].add(i.id)
        li = [set() for _ in range(n)]; ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set(phiuse[b])
                for t in f.succs(b): o |= li[t]
                x = use[b] | (o - de[b])
                if x != li[b]: li[b] = x; ch = True
        return li
