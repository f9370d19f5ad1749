"""Objects that only a C variable refers to, across points where the collector may run.

An origin is a value that is an object nobody else knows: the result of an
allocating function (or what one stores through an out parameter), or, for the
summaries, a parameter.  Status of an origin on a path: U (unknown to anybody),
I (in the incubator, with the scopes open when it was added), L (a collection
may have run while it was U).  An origin that is stored in memory which is not
local is dropped: somebody else refers to it.
"""
import incub, stale
from nesting import strip
from cfront import AnalysisBroken

ROOTS = ('alloc_oop', '_gst_interpret')
# entered from the API only while no object exists
START = ('_gst_initialize',)
# run while the virtual machine starts, before the first message is sent: they
# create a bounded number of small objects in an empty nursery
ONCE = {'init_runtime_objects': 'start-up', 'init_c_symbols': 'start-up', '_gst_install_initial_methods': 'start-up'}
TEST = {'test_callin': 'a C function that the test suite calls'}


def uses(i):
    out = []
    def w(o):
        if isinstance(o, str) and o[:1] == '%': out.append(int(o[1:]))
        elif isinstance(o, dict):
            for v in o.values(): w(v)
        elif isinstance(o, list):
            for v in o: w(v)
    if i.op == 'gep':
        w(i.x['b']); w(i.x['v'])
    else:
        w(i.ops)
        if i.op == 'call' and isinstance(i.x, str): w(i.x)
    return out


class Rooting:
    def __init__(self, p, gc):
        self.p = p; self.gc = gc; self.inc = incub.Incubator(p, gc); self.inc.solve()
        self.fresh = {}; self.out = set(); self.need = {}; self.keep = set()
        self.isout = self._outparams(); self.bodies = set(); self.gen = 0; self.ctxs = {}
        self._may(); self._rooted(); self.stale = stale.Stale(p, gc)
        self.once = gc._closed({f.name for f in p.funcs.values() if f.base in ONCE})
        self.fs = [f for f in p.funcs.values() if not f.decl and f.name not in gc.boot]
        self._solve()
        self.bodies = {k[0] for k in self.out}
        self._solve()

    def _solve(self):
        p = self.p
        self.fresh = {}; self.out = set(); self.need = {}; self.keep = set(); self.cmem = set(); self.incs = set()
        for n, f in p.funcs.items():
            if f.base in ROOTS and not f.decl: self.fresh[n] = frozenset('U')
        if len({p.funcs[n].base for n in self.fresh}) < len(ROOTS): raise AnalysisBroken('allocation roots not found')
        def snap(f):
            return (self.fresh.get(f.name), {k for k in self.out if k[0] == f.name}, self.need.get(f.name),
                    {k for k in self.keep if k[0] == f.name}, {k for k in self.cmem if k[0] == f.name}, {k for k in self.incs if k[0] == f.name})
        ch = True; n = 0
        while ch:
            ch = False; n += 1; self.gen += 1
            if n > 30: raise AnalysisBroken('rooting summaries do not converge')
            for f in self.fs:
                before = snap(f)
                self.run(f, None)
                if before != snap(f): ch = True

    def _may(self):
        """functions that may collect once the VM runs (start-up entered from them excluded)"""
        gc = self.gc; self.start = {g for g in self.p.funcs if self.p.funcs[g].base in START}
        def close(seed, guard):
            may = set(seed) - self.start; ch = True
            while ch:
                ch = False
                for f, s in gc.cg.items():
                    if f not in may and f not in self.start and f not in guard and not self.p.funcs[f].noreturn and s & may: may.add(f); ch = True
            return may
        self.may = close(gc.entries | {n for n in self.p.funcs if n in gc.EXT}, ())
        self.full = close(gc.entries | {n for n in self.p.funcs if n in gc.EXT}, gc.guard)

    def gc_call(self, f, i):
        if i.op != 'call': return None
        may = self.full if f.name in self.gc.inside and f.name not in self.gc.entries else self.may
        for g in self.gc.callees(f, i):
            if g in may: return g
        return None

    def _outparams(self):
        """parameters that always receive the address of a local variable"""
        p = self.p; seen = set()
        for f in p.funcs.values():
            if f.decl: continue
            for i in f.calls():
                g = p.funcs.get(i.callee)
                if g is None or g.decl: continue
                for k, o in enumerate(i.ops[:len(g.params)]):
                    d = f.defn(strip(f, o))
                    if d is not None and d.op == 'alloca': seen.add((g.name, k))
        ch = True
        while ch:
            ch = False
            for f in p.funcs.values():
                if f.decl: continue
                for i in f.calls():
                    g = p.funcs.get(i.callee)
                    if g is None or g.decl: continue
                    for k, o in enumerate(i.ops[:len(g.params)]):
                        if (f.name, f.param(strip(f, o))) in seen and (g.name, k) not in seen: seen.add((g.name, k)); ch = True
        return seen

    def _rooted(self):
        """variables and fields that the collector looks at"""
        self.rootg = set(); self.rootf = set()
        for n in self.gc.inside | self.gc.entries:
            f = self.p.funcs[n]
            for i in f.instrs():
                if i.op == 'load' and i.ty == 'ptr':
                    if isinstance(i.ops[0], dict) and set(i.ops[0]) == {'g'}: self.rootg.add(i.ops[0]['g'])
                    elif isinstance(i.x, list) and i.x[0] not in ('any pointer', '?', ''): self.rootf.add((i.x[0], i.x[2]))

    def target(self, f, i):
        """what a store writes: 'local', 'out', 'inc', 'root' or 'C' (memory the collector does not look at)"""
        r = self.root(f, i.ops[1]); d = f.defn(r)
        if d is not None and d.op == 'alloca': return 'local'
        if f.param(r) is not None and (f.name, f.param(r)) in self.isout: return 'out'
        if d is not None and d.op == 'load' and incub.field(d.ops[0]) == self.inc.ptr: return 'inc'
        if isinstance(r, str) and r[:1] == '%' and int(r[1:]) in self.stale.cls.get(f.name, ()): return 'root'
        if isinstance(i.x, list) and i.x[0].startswith(('gst_', 'oop_s')): return 'root'
        if d is not None and d.op == 'call' and d.callee and self.p.funcs.get(d.callee) and not self.p.funcs[d.callee].decl and d.callee in self.bodies: return 'root'
        if isinstance(r, dict) and set(r) == {'g'}: return 'root' if r['g'] in self.rootg else 'C'
        if isinstance(i.x, list) and (i.x[0], i.x[2]) in self.rootf: return 'root'
        return 'C'

    def origins(self, f):
        """{id: origin}: aliases of origins, flow-insensitively within the function"""
        al = {}
        cells = {}
        for i in f.instrs():
            if i.op == 'call':
                if i.callee in self.fresh: al.setdefault(i.id, set()).add(i.id)
                for k, o in enumerate(i.ops):
                    if (i.callee, k) in self.out:
                        d = f.defn(strip(f, o))
                        if d is not None and d.op == 'alloca': cells.setdefault(d.id, set()).add(i.id)
        for k, t in enumerate(f.params):
            if t == 'ptr': al.setdefault(k, set()).add(-1 - k)
        for i in f.instrs():
            if i.op == 'load' and i.ty == 'ptr':
                k = f.param(self.root(f, i.ops[0]))
                if k is not None and (f.name, k) in self.isout: al.setdefault(i.id, set()).add(-1000 - k)
        ch = True
        while ch:
            ch = False
            for i in f.instrs():
                src = set()
                if i.op in ('phi', 'select'):
                    for o in (i.ops if i.op == 'phi' else i.ops[1:]):
                        if isinstance(o, str) and o[:1] == '%': src |= al.get(int(o[1:]), set())
                elif i.op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr') and isinstance(i.ops[0], str): src |= al.get(int(i.ops[0][1:]), set())
                elif i.op == 'load':
                    d = f.defn(self.root(f, i.ops[0]))
                    if d is not None and d.op == 'alloca': src |= cells.get(d.id, set())
                elif i.op == 'store' and isinstance(i.ops[0], str) and i.ops[0][:1] == '%':
                    d = f.defn(self.root(f, i.ops[1]))
                    if d is not None and d.op == 'alloca':
                        s = al.get(int(i.ops[0][1:]), set()) - cells.get(d.id, set())
                        if s: cells.setdefault(d.id, set()).update(s); ch = True
                    continue
                else: continue
                if src - al.get(i.id, set()): al.setdefault(i.id, set()).update(src); ch = True
        return al, cells

    def cell(self, f, o):
        """name of the C memory cell an address means: access path from a variable or parameter"""
        off = 0; path = []
        for _ in range(12):
            d = f.defn(o)
            if isinstance(o, dict) and set(o) == {'g'}: return (o['g'], off, tuple(path))
            if f.param(o) is not None: return (f.param(o), off, tuple(path))
            if d is None: return None
            if d.op == 'gep' and not d.x['v']: off += d.x['o']; o = d.x['b']
            elif d.op == 'load': path.append(off); off = 0; o = d.ops[0]
            elif d.op in ('bitcast', 'freeze'): o = d.ops[0]
            else: return (o, off, tuple(path))
        return None

    def through(self, f, al):
        """{id of a load: origins} for what is read back from the C memory cell it was put in"""
        cells = {}; out = {}
        for i in f.instrs():
            if i.op == 'store' and isinstance(i.ops[0], str) and i.ops[0][:1] == '%' and int(i.ops[0][1:]) in al and self.target(f, i) == 'C':
                c = self.cell(f, i.ops[1])
                if c is not None: cells.setdefault(c, set()).update(al[int(i.ops[0][1:])])
        if cells:
            for i in f.instrs():
                if i.op == 'load' and i.ty == 'ptr':
                    c = self.cell(f, i.ops[0])
                    if c in cells: out[i.id] = cells[c]
        return out

    def root(self, f, o):
        d = f.defn(o); n = 0
        while d is not None and d.op in ('gep', 'bitcast', 'freeze') and n < 40:
            o = d.x['b'] if d.op == 'gep' else d.ops[0]; d = f.defn(o); n += 1
        return o

    def branch(self, f, b, ctx):
        """successors of block b when the parameters in ctx have the constants given there"""
        t = f.term(b); ss = f.succs(b)
        if not ctx or t.op != 'br' or len(t.ops) != 3: return ss
        def const(o, n=0):
            if isinstance(o, int): return o
            if f.param(o) is not None: return ctx.get(f.param(o))
            d = f.defn(o)
            if d is None or n > 8: return None
            if d.op in ('trunc', 'zext', 'sext', 'freeze'):
                v = const(d.ops[0], n + 1)
                return v if v is None or v >= 0 else None
            if d.op in ('icmp', 'and', 'xor'):
                x, y = const(d.ops[0], n + 1), const(d.ops[1], n + 1)
                if x is None or y is None: return None
                if d.op == 'and': return x & y
                if d.op == 'xor': return (x ^ y) & 1 if d.ty == 'i1' else None
                return {'eq': int(x == y), 'ne': int(x != y)}.get(d.x)
            return None
        v = const(t.ops[0])
        if v is None: return ss
        return [t.ops[2]['bb'] if v else t.ops[1]['bb']]

    def needs(self, i, c, kk):
        """callee c of call i uses its argument kk after a collection that it may cause"""
        if kk not in self.need.get(c, ()): return False
        g = self.p.funcs[c]
        cs = tuple((k, v) for k, v in enumerate(i.ops[:len(g.params)]) if isinstance(v, int) and g.params[k] in ('i1', 'i8', 'i32', 'i64'))
        if not cs or g.decl: return True
        key = (c, cs, self.gen)
        if key not in self.ctxs:
            self.ctxs[key] = self.need.get(c)      # recursion
            self.ctxs[key] = self.run(g, None, dict(cs))
        return kk in self.ctxs[key]

    def run(self, f, report, ctx=None):
        al, cells = self.origins(f)
        if not al: return frozenset()
        via = self.through(f, al)
        ks = self.inc.kinds.get(f.name, {})
        IN = [None] * len(f.blocks)
        init = {-1 - k: frozenset('U') for k, t in enumerate(f.params) if t == 'ptr'}
        init.update({-1000 - k: frozenset('U') for k, t in enumerate(f.params) if (f.name, k) in self.isout})
        IN[0] = (init, frozenset())
        work = [0]; need = set(self.need.get(f.name, ())) if not ctx else set()
        step = 0
        while work:
            b = work.pop(); step += 1
            if step > 20000: raise AnalysisBroken('rooting does not converge in ' + f.name)
            st, saves = dict(IN[b][0]), IN[b][1]
            dead = False; incslot = False
            for i in f.blocks[b]:
                if i.op == 'phi': continue
                us = [u for u in uses(i) if u in al]
                if i.op == 'load' and i.id in al:
                    for o in al[i.id]:
                        if o <= -1000 and 'L' in st.get(o, ()): need.add(-1 - o)
                k = ks.get(i.id)
                if i.op not in ('icmp', 'phi', 'select', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
                    for u in us:
                        for o in al[u]:
                            if 'L' in st.get(o, ()):
                                if o < 0: need.add(-1 - o)
                                elif report: report('used', i, f.ins[o])
                if i.op == 'store':
                    v = i.ops[0]
                    if isinstance(v, str) and v[:1] == '%' and int(v[1:]) in via:
                        t = self.target(f, i)
                        for o in via[int(v[1:])]:
                            if t == 'inc' and o in st: st[o] = frozenset((('I', saves) if x == 'U' else x) for x in st[o])
                            elif t == 'root':
                                st.pop(o, None)
                                if o < 0: self.keep.add((f.name, -1 - o))
                    if isinstance(v, str) and v[:1] == '%' and int(v[1:]) in al:
                        t = self.target(f, i)
                        for o in al[int(v[1:])]:
                            if t == 'out' and o >= 0 and any(x == 'U' or isinstance(x, tuple) for x in st.get(o, ())):
                                self.out.add((f.name, f.param(self.root(f, i.ops[1]))))
                            elif t == 'inc' and o in st: st[o] = frozenset((('I', saves) if x == 'U' else x) for x in st[o])
                            elif t == 'root':
                                st.pop(o, None)
                                if o < 0: self.keep.add((f.name, -1 - o))
                            elif t == 'C' and o in st: st[o] = st[o] | {'C'}
                if k:
                    if k[0] == 'save': saves = saves | {i.id}
                    elif k[0] == 'restore':
                        src = {x for x in self.inc.sources(f, k[1]) if x is not None}
                        for o in list(st):
                            if 'C' in st[o] and any(isinstance(x, tuple) and x[1] & src for x in st[o]): del st[o]; continue
                            st[o] = frozenset('U' if isinstance(x, tuple) and x[1] & src else x for x in st[o])
                        saves = saves - src
                if i.op == 'call':
                    g = self.gc_call(f, i); incd = []
                    for kk, a in enumerate(i.ops):
                        if not (isinstance(a, str) and a[:1] == '%' and int(a[1:]) in al): continue
                        for o in al[int(a[1:])]:
                            if 'U' not in st.get(o, ()): continue
                            if any(self.needs(i, c, kk) for c in self.gc.callees(f, i)):
                                if o < 0: need.add(-1 - o)
                                elif report: report('passed', i, f.ins[o])
                    for kk, a in enumerate(i.ops):
                        if not any(kk + 999 in self.need.get(c, ()) for c in self.gc.callees(f, i)): continue
                        r = self.root(f, a); d = f.defn(r); k2 = f.param(r)
                        inner = cells.get(d.id, ()) if d is not None and d.op == 'alloca' else (-1000 - k2,) if k2 is not None else ()
                        for o in inner:
                            if 'U' not in st.get(o, ()): continue
                            if o < 0: need.add(-1 - o)
                            elif report: report('passed in an array', i, f.ins[o])
                    for kk, a in enumerate(i.ops):
                        if not (isinstance(a, str) and a[:1] == '%' and (int(a[1:]) in al or int(a[1:]) in via)): continue
                        if any((c, kk) in self.keep for c in self.gc.callees(f, i)):
                            for o in al.get(int(a[1:]), set()) | via.get(int(a[1:]), set()):
                                st.pop(o, None)
                                if o < 0: self.keep.add((f.name, -1 - o))
                    for kk, a in enumerate(i.ops):
                        if isinstance(a, str) and a[:1] == '%' and int(a[1:]) in al and any((c, kk) in self.cmem for c in self.gc.callees(f, i)):
                            for o in al[int(a[1:])]:
                                if o in st: st[o] = st[o] | {'C'}
                    for kk, a in enumerate(i.ops):
                        if isinstance(a, str) and a[:1] == '%' and int(a[1:]) in al and any((c, kk) in self.incs for c in self.gc.callees(f, i)):
                            for o in al[int(a[1:])]:
                                if o in st: incd.append(o)
                    if g:
                        for o in list(st):
                            if 'U' in st[o] and 'C' in st[o] and o != i.id:
                                if o < 0: need.add(-1 - o)
                                elif report: report('left in C memory', i, f.ins[o])
                            if o == i.id or o in incd: continue
                            st[o] = frozenset('L' if x == 'U' else x for x in st[o])
                    for o in incd:
                        if o in st: st[o] = frozenset((('I', saves) if x == 'U' else x) for x in st[o])
                    for kk, a in enumerate(i.ops):
                        if (i.callee, kk) in self.out and f.param(strip(f, a)) is not None and (f.name, f.param(strip(f, a))) in self.isout: self.out.add((f.name, f.param(strip(f, a))))
                    if i.callee in self.p.funcs and self.p.funcs[i.callee].noreturn: dead = True; break
                    if i.callee in self.fresh: st[i.id] = frozenset('U' if x != 'I' else ('I', saves) for x in self.fresh[i.callee])
                    elif any((i.callee, kk) in self.out for kk in range(len(i.ops))): st[i.id] = frozenset('U')
                if i.op == 'ret':
                    rv = al.get(int(i.ops[0][1:]), set()) if i.ops and isinstance(i.ops[0], str) and i.ops[0][:1] == '%' else ()
                    for o in st:
                        if o < 0 and ('I', frozenset()) in st[o] and not 'U' in st[o] and not 'L' in st[o]: self.incs.add((f.name, -1 - o))
                        if 'U' in st[o] and 'C' in st[o] and o not in rv:
                            if o < 0: self.cmem.add((f.name, -1 - o))
                            elif report: report('left in C memory', i, f.ins[o])
                if i.op == 'ret' and i.ops:
                    a = i.ops[0]
                    if isinstance(a, str) and a[:1] == '%' and int(a[1:]) in al:
                        for o in al[int(a[1:])]:
                            if o < 0: continue
                            for x in st.get(o, ()):
                                self.fresh[f.name] = self.fresh.get(f.name, frozenset()) | {'I' if isinstance(x, tuple) else x if x == 'C' else 'U'}
            if dead: continue
            nil = self.nilfact(f, b)
            for s in self.branch(f, b, ctx):
                st0 = st
                if nil is not None and s == nil[1]:
                    st = {o: v for o, v in st.items() if o not in al.get(nil[0], ())}
                    self.merge(IN, s, st, saves, work); st = st0; continue
                self.merge(IN, s, st, saves, work)
        if need and not ctx: self.need[f.name] = frozenset(need)
        return frozenset(need)

    def nilfact(self, f, b):
        t = f.term(b)
        if t.op != 'br' or len(t.ops) != 3: return None
        c = f.defn(t.ops[0])
        if c is None or c.op != 'icmp' or c.x not in ('eq', 'ne'): return None
        for x, y in (c.ops, c.ops[::-1]):
            d = f.defn(y)
            if not (y in ('null', 0) or d is not None and d.op == 'load' and d.ops[0] == {'g': '_gst_nil_oop'}): continue
            if isinstance(x, str) and x[:1] == '%': return int(x[1:]), (t.succ()[0] if c.x == 'eq' else t.succ()[1])
        return None

    def merge(self, IN, s, st, saves, work):
        if 1:
            if 1:
                if IN[s] is None: IN[s] = (dict(st), saves); work.append(s)
                else:
                    m = dict(IN[s][0]); ch = False
                    for o, v in st.items():
                        n = m.get(o, frozenset()) | v
                        if n != m.get(o): m[o] = n; ch = True
                    sv = IN[s][1] | saves
                    if sv != IN[s][1]: ch = True
                    if ch: IN[s] = (m, sv); work.append(s)
