"""File descriptors and obstacks: obtained once, given up once, on every path."""
from nesting import strip
ACQ = {'open', 'open64', 'mkstemp', 'mkstemp64', 'dup'}      # result is a descriptor
PAIR = {'pipe': 0, 'pipe2': 0, 'socketpair': 3}         # fills an array of two descriptors


class Handles:
    def __init__(self, p, gc):
        self.p = p; self.gc = gc; self.acq = set(ACQ); self.rel = {}
        # functions that return a fresh descriptor, and what functions do with an integer parameter
        ch = True
        while ch:
            ch = False
            for f in p.funcs.values():
                if f.decl or f.ret not in ('i32', 'i64') or f.name in self.acq: continue
                rets = [i for i in f.instrs() if i.op == 'ret' and i.ops]
                if rets and self.freshret(f, rets): self.acq.add(f.name); ch = True

    def key(self, o): return int(o[1:]) if isinstance(o, str) and o[:1] == '%' else None

    def freshret(self, f, rets):
        got = False; st = [r.ops[0] for r in rets]; seen = set()
        while st:
            o = st.pop(); d = f.defn(o)
            if isinstance(o, int):
                if o >= 0: return False
                continue
            if d is None: return False
            if d.id in seen: continue
            seen.add(d.id)
            if d.op in ('phi',): st += d.ops
            elif d.op == 'select': st += d.ops[1:]
            elif d.op == 'call' and d.callee in self.acq: got = True
            elif d.op == 'load' and d.id in self.cells(f)[1]: got = True
            else: return False
        return got

    def cells(self, f):
        """arrays filled by pipe: {call id: (alloca, {offset})}, loads from them"""
        calls = {}; loads = {}
        for i in f.calls():
            if i.callee in PAIR:
                d = f.defn(i.ops[PAIR[i.callee]])
                if d is not None and d.op == 'alloca': calls[i.id] = d.id
        for i in f.instrs():
            if i.op == 'load':
                offs = self.addr(f, i.ops[0])
                if offs and any(a in calls.values() for a, _ in offs): loads[i.id] = offs
        return calls, loads

    def addr(self, f, o, depth=0):
        d = f.defn(o)
        if d is None or depth > 4: return set()
        if d.op == 'alloca': return {(d.id, 0)}
        if d.op == 'gep' and not d.x['v']: return {(a, x + d.x['o']) for a, x in self.addr(f, d.x['b'], depth + 1)}
        if d.op == 'select': return self.addr(f, d.ops[1], depth + 1) | self.addr(f, d.ops[2], depth + 1)
        return set()

    def par(self, i, k, depth=0):
        c = i.callee
        if c == 'close': return 'free'
        g = self.p.funcs.get(c)
        if g is None or g.decl or depth > 3: return 'use' if c is not None else 'keep'
        if k >= len(g.params): return 'use'
        kk = (c, k)
        if kk in self.rel: return self.rel[kk]
        self.rel[kk] = 'use'
        al = self.al(g, {k}); r = 'use'
        for x in g.instrs():
            if x.op == 'store' and self.key(x.ops[0]) in al or x.op == 'ret' and x.ops and self.key(x.ops[0]) in al: r = 'keep'
            elif x.op == 'call':
                for j, o in enumerate(x.ops):
                    if self.key(o) in al:
                        e = self.par(x, j, depth + 1)
                        if e != 'use': r = 'keep'
            elif x.op in ('shl', 'or', 'add', 'mul') and any(self.key(o) in al for o in x.ops): r = 'keep'
        self.rel[kk] = r
        return r

    def al(self, f, s):
        s = set(s); ch = True
        while ch:
            ch = False
            for i in f.instrs():
                if i.id not in s and i.op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast') and self.key(i.ops[0]) in s: s.add(i.id); ch = True
        return s

    def negedge(self, f, t, s, al):
        """edge t -> s is taken only if the descriptor is invalid"""
        if t.op != 'br' or len(t.ops) != 3: return None
        c = f.defn(t.ops[0])
        if c is None or c.op != 'icmp' or self.key(c.ops[0]) not in al or not isinstance(c.ops[1], int): return None
        k = c.ops[1]; tr, fa = t.succ()
        bad = {('eq', -1): tr, ('ne', -1): fa, ('slt', 0): tr, ('sgt', -1): fa, ('sge', 0): fa, ('sle', -1): tr}.get((c.x, k))
        return None if bad is None or tr == fa else s == bad

    def check(self, f, report):
        n = 0
        calls, loads = self.cells(f)
        jobs = [(i, None) for i in f.calls() if i.callee in self.acq]
        for i in f.calls():
            if i.id in calls:
                for off in (0, 4): jobs.append((i, (calls[i.id], off)))
        for site, cell in jobs:
            n += 1; self.one(f, site, cell, report, loads)
        return n

    def ckey(self, f, o):
        d = f.defn(o)
        if d is not None and d.op == 'icmp' and all(isinstance(x, (str, int)) for x in d.ops):
            return (('eq', d.ops[0], d.ops[1]), True) if d.x == 'ne' else ((d.x, d.ops[0], d.ops[1]), False)
        return o, False

    def one(self, f, site, cell, report, loads):
        # selects that choose between the two elements are followed for every choice of their condition
        conds = sorted({d.ops[0] for i in loads for d in [f.defn(f.ins[i].ops[0])] if d is not None and d.op == 'select'} |
                       {i.ops[0] for i in f.instrs() if i.op == 'select' and any(self.key(o) in loads for o in i.ops[1:])}) if cell else []
        cases = [{}]
        for c in conds[:3]: cases = [dict(x, **{c: v}) for x in cases for v in (True, False)]
        for case in cases: self.run(f, site, cell, report, loads, case)

    def run(self, f, site, cell, report, loads, case):
        res = {site.id} | {i.id for i in f.instrs() if i.op == 'phi' and any(self.key(o) == site.id for o in i.ops)}
        IN = [set() for _ in f.blocks]; s0 = ('none', frozenset(), frozenset()); IN[0].add(s0); work = [(0, s0)]; n = 0
        done = set()
        def selected(d):
            v = case.get(d.ops[0])
            return d.ops[1:] if v is None else [d.ops[1] if v else d.ops[2]]
        def addr(o):
            d = f.defn(o)
            if d is not None and d.op == 'select':
                r = set()
                for x in selected(d): r |= addr(x)
                return r
            return self.addr(f, o)
        while work:
            b, (st, al, fa) = work.pop(); n += 1; entry = (st, al, fa)
            if n > 5000: return
            dead = False
            for i in f.blocks[b]:
                k = self.key
                if i.op == 'phi': continue
                if i.id == site.id:
                    if st == 'own' and not cell: report('again', i, site)
                    st = 'own'; al = frozenset() if cell else frozenset([i.id]); continue
                if st == 'none': continue
                if cell and i.op == 'load' and cell in addr(i.ops[0]): al |= {i.id}
                elif i.op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast') and k(i.ops[0]) in al: al |= {i.id}
                elif i.op == 'select' and any(k(o) in al for o in selected(i)):
                    arms = selected(i); d = f.defn(i.ops[0])
                    if len(arms) == 2 and not all(k(o) in al for o in arms) and not (d is not None and d.op == 'icmp' and any(k(x) in al for x in d.ops)):
                        ck, neg = self.ckey(f, i.ops[0])
                        known = [v for c, v in fa if c == ck]
                        if not known:
                            for x in (True, False):
                                nst = (entry[0], entry[1], entry[2] | {(ck, x)})
                                if nst not in IN[b]: IN[b].add(nst); work.append((b, nst))
                            dead = True; break
                        arms = [arms[0] if known[0] ^ neg else arms[1]]
                    if any(k(o) in al for o in arms): al |= {i.id}
                elif i.op == 'store' and k(i.ops[0]) in al:
                    if st == 'own': st = 'gone'
                elif i.op in ('shl', 'or', 'mul', 'add') and any(k(o) in al for o in i.ops):
                    if st == 'own': st = 'gone'
                elif i.op == 'call':
                    g = self.p.funcs.get(i.callee)
                    if g is not None and g.noreturn or i.callee in ('_exit', 'exit'): dead = True; break
                    for j, o in enumerate(i.ops):
                        if k(o) in al:
                            e = self.par(i, j)
                            if e == 'free':
                                if st == 'freed': report('double', i, site)
                                st = 'freed'
                            elif e == 'keep' and st == 'own': st = 'gone'
                elif i.op == 'ret':
                    if i.ops and k(i.ops[0]) in al:
                        if st == 'freed': report('returned', i, site)
                        elif st == 'own': st = 'gone'
                    if st == 'own' and (i.id not in done): done.add(i.id); report('leak', i, site)
            if dead: continue
            t = f.blocks[b][-1]
            for ns, s in enumerate(t.succ()):
                st2 = st
                if st == 'own':
                    e = self.negedge(f, t, s, al | (res if cell else set()))
                    if e: st2 = 'none'
                if t.op == 'br' and len(t.ops) == 3 and t.ops[0] in case and case[t.ops[0]] != (ns == 0): continue
                # the same condition is not decided twice
                fa2 = fa
                if t.op == 'br' and len(t.ops) == 3:
                    ck, neg = self.ckey(f, t.ops[0]); val = (ns == 0) ^ neg
                    if (ck, not val) in fa: continue
                    fa2 = fa | {(ck, val)}
                defs = {i.id for i in f.blocks[s]}
                new = {i.id for i in f.blocks[s] if i.op == 'phi' for pb, o in zip(i.x, i.ops) if pb == b and self.key(o) in al}
                fa2 = frozenset(x for x in fa2 if not ({self.key(z) for z in (x[0] if isinstance(x[0], tuple) else (x[0],))} & defs))
                al2 = frozenset(x for x in al if x not in defs) | frozenset(new)
                nst = (st2, al2 if st2 != 'none' else frozenset(), fa2)
                if nst not in IN[s]: IN[s].add(nst); work.append((s, nst))

    def obstacks(self, f):
        """(start, the return reached without giving the obstack up or None) for obstacks in f's frame"""
        for i in f.calls():
            if i.callee != '_obstack_begin' and i.callee != '_obstack_begin_1': continue
            d = f.defn(strip(f, i.ops[0]))
            if d is None or d.op != 'alloca': continue
            bi = next(k for k, bl in enumerate(f.blocks) if i in bl)
            todo = [(bi, f.blocks[bi].index(i) + 1)]; seen = set(); bad = None
            while todo and bad is None:
                k, st = todo.pop()
                for x in f.blocks[k][st:]:
                    if x.op == 'call' and (x.callee in ('obstack_free', '_obstack_free', '__obstack_free') and x.ops[0] == i.ops[0] and x.ops[1] in ('null', 0) or
                                           x.callee in self.p.funcs and self.p.funcs[x.callee].noreturn): break
                    if x.op == 'ret': bad = x; break
                else:
                    for s in f.succs(k):
                        if s not in seen: seen.add(s); todo.append((s, 0))
            yield i, bad
