"""May-collect effects and object-body addresses over the VM's LLVM IR."""
from cfront import AnalysisBroken

# Functions that give an existing object a new body address.  The set is
# cross-checked against the stores to the body field of the OOP structure.
FRESH = {'alloc_oop': 'fills a free OOP', 'init_proto_oops': 'bootstrap', 'activate_new_context': 'fills a free context OOP',
         '_gst_init_oop_table': 'bootstrap', 'make_oop_table_to_be_saved': 'writes a private copy of the table',
         'load_normal_oops': 'image loading, before any Smalltalk code runs'}
BOOT = set()


def is_body_load(i):
    return i.op == 'load' and isinstance(i.x, list) and i.x[0] == 'oop_s' and i.x[2] == 0


def is_body_store(i):
    return i.op == 'store' and isinstance(i.x, list) and i.x[0] == 'oop_s' and i.x[2] == 0


class GC:
    def __init__(self, p):
        self.p = p
        self.movers = set()
        for f in p.funcs.values():
            if f.decl: continue
            for i in f.instrs():
                if is_body_store(i) and f.base not in FRESH:
                    # a store into an OOP allocated in this very function is not a move
                    self.movers.add(f.name)
                if i.op == 'call' and i.callee and i.callee.startswith('llvm.memcpy') and f.base == '_gst_swap_objects':
                    self.movers.add(f.name)
        self.movers -= {f for f in self.movers if p.funcs[f].base in FRESH}
        if not any(p.funcs[m].base == '_gst_copy_an_oop' for m in self.movers) and len(self.movers) < 3:
            raise AnalysisBroken('the copying collector was not recognised')
        self._targets()
        self._maygc()
        self._contexts()

    # -- indirect calls: address-taken functions of the same signature
    def _targets(self):
        p = self.p
        taken = set()
        def scan(o):
            if isinstance(o, dict):
                if 'g' in o and o['g'] in p.funcs: taken.add(o['g'])
                for k, v in o.items():
                    if k != 'g': scan(v)
            elif isinstance(o, list):
                for v in o: scan(v)
        for f in p.funcs.values():
            if f.decl: continue
            for i in f.instrs():
                if i.op == 'call':
                    scan(i.ops)
                elif i.op == 'gep': scan(i.x)
                else: scan(i.ops)
        for g in p.globals.values():
            if 'init' in g: scan(g['init'])
        self.taken = taken
        self.bysig = {}
        for n in taken:
            f = p.funcs[n]
            self.bysig.setdefault((f.ret, tuple(f.params)), set()).add(n)
        def oty(f, o):
            if isinstance(o, str) and o[0] == '%':
                k = int(o[1:])
                if k < len(f.params): return f.params[k]
                d = f.ins.get(k); return d.ty if d else None
            if isinstance(o, int): return 'int'
            return 'ptr'
        self.oty = oty
        self._fields()

    def _fields(self):
        """Functions that can be stored in each (struct, offset) field."""
        p = self.p
        direct = {}; par = {}
        for f in p.funcs.values():
            if f.decl: continue
            for i in f.instrs():
                if i.op == 'store' and isinstance(i.x, list) and i.x[0] not in ('', '?', 'any pointer', 'omnipotent char'):
                    key = (i.x[0], i.x[2]); v = i.ops[0]
                    if isinstance(v, dict) and v.get('g') in p.funcs: direct.setdefault(key, set()).add(v['g'])
                    elif f.param(v) is not None: par.setdefault((f.name, f.param(v)), set()).add(key)
                    elif v not in ('null', 0): par.setdefault('?', set()).add(key)
        # parameters stored in fields: constants passed by callers, to a fixed point
        ch = True
        while ch:
            ch = False
            for f in p.funcs.values():
                if f.decl: continue
                for i in f.calls():
                    if not i.callee: continue
                    for k, v in enumerate(i.ops):
                        for key in par.get((i.callee, k), ()):
                            if isinstance(v, dict) and v.get('g') in p.funcs:
                                if v['g'] not in direct.setdefault(key, set()): direct[key].add(v['g']); ch = True
                            elif f.param(v) is not None:
                                t = par.setdefault((f.name, f.param(v)), set())
                                if key not in t: t.add(key); ch = True
        self.fieldfn = direct; self.fieldunk = par.get('?', set())
        # functions stored in each global function pointer
        gf = {}; bad = set()
        for f in p.funcs.values():
            if f.decl: continue
            for i in f.instrs():
                if i.op == 'store' and isinstance(i.ops[1], dict) and set(i.ops[1]) == {'g'}:
                    v = i.ops[0]
                    if isinstance(v, dict) and v.get('g') in p.funcs: gf.setdefault(i.ops[1]['g'], set()).add(v['g'])
                    elif v not in ('null', 0, None): bad.add(i.ops[1]['g'])
        for n, g in p.globals.items():
            v = g.get('init')
            if isinstance(v, dict) and v.get('g') in p.funcs: gf.setdefault(n, set()).add(v['g'])
        # functions in constant tables of structures, by offset (None: unknown)
        tabs = {}
        def walk(v, off):
            if not isinstance(v, dict): return
            if 'st' in v:
                o = 0
                for m in v['st']:
                    isfn = isinstance(m, dict) and m.get('g') in p.funcs
                    if isfn: tabs.setdefault(o, set()).add(m['g'])
                    elif isinstance(m, dict): walk(m, None)
                    if o is not None: o = o + 8 if isfn or m == 'null' or (isinstance(m, dict) and 'g' in m) else None
            for k in ('arr', 'vec'):
                for m in v.get(k, ()) if isinstance(v.get(k), list) else (): walk(m, None)
        for g in p.globals.values():
            if 'init' in g: walk(g['init'], None)
        self.tabs = tabs
        self.globfn = {n: s for n, s in gf.items() if n not in bad}

    def callees(self, f, i):
        if i.callee: return (i.callee,)
        if isinstance(i.x, dict) and i.x.get('k') == 'asm': return ()
        d = f.defn(i.x)
        if d is not None and d.op == 'load' and isinstance(d.x, list):
            key = (d.x[0], d.x[2])
            if key in self.fieldfn and key not in self.fieldunk: return tuple(sorted(self.fieldfn[key]))
            if key not in self.fieldfn and key not in self.fieldunk and key[0] not in ('any pointer', 'omnipotent char', '', '?') and self.tabs.get(key[1]):
                ts = [self.oty(f, o) for o in i.ops]
                def fits(g):
                    return not g.vararg and len(g.params) == len(ts) and (g.ret == i.ty or i.ty == 'void') and \
                        all(a == b or b is None or (b == 'int' and a[0] == 'i') for a, b in zip(g.params, ts))
                c = [n for n in self.tabs[key[1]] | self.tabs.get(None, set()) if fits(self.p.funcs[n])]
                if c: return tuple(sorted(c))
        if d is not None and d.op == 'load' and isinstance(d.ops[0], dict) and set(d.ops[0]) == {'g'} and d.ops[0]['g'] in self.globfn:
            return tuple(sorted(self.globfn[d.ops[0]['g']]))
        ts = [self.oty(f, o) for o in i.ops]
        out = []
        for (ret, ps), ns in self.bysig.items():
            if len(ps) == len(ts) and (ret == i.ty or i.ty == 'void') and \
               all(a == b or (b == 'int' and a[0] == 'i') or b is None for a, b in zip(ps, ts)):
                out += ns
        return out

    # C functions of other libraries that can run arbitrary VM code
    EXT = {'ffi_call', 'ffi_prep_closure', 'ffi_closure_alloc'} - {'ffi_prep_closure', 'ffi_closure_alloc'}

    def _maygc(self):
        p = self.p
        self.cg = {}
        for f in p.funcs.values():
            if f.decl: continue
            s = set()
            for i in f.calls():
                s.update(self.callees(f, i))
            self.cg[f.name] = s
        self.may = set(self.movers) | {n for n in p.funcs if n in self.EXT}
        self.why = {m: None for m in self.may}
        ch = True
        while ch:
            ch = False
            for f, s in self.cg.items():
                if f in self.may: continue
                for g in s:
                    if g in self.may and not p.funcs[f].noreturn:
                        self.may.add(f); self.why[f] = g; ch = True; break

    def _closed(self, seed):
        """seed plus the functions all of whose callers are in the set"""
        p = self.p
        callers = {}
        for f, s in self.cg.items():
            for g in s: callers.setdefault(g, set()).add(f)
        out = set(seed); ch = True
        while ch:
            ch = False
            for n, f in p.funcs.items():
                if f.decl or n in out or n in self.taken: continue
                c = callers.get(n, set()) - {n}
                if c and c <= out: out.add(n); ch = True
        return out

    def _contexts(self):
        p = self.p
        # collector entry points: the functions that maintain the
        # "collection in progress" counter
        self.entries = {f.name for f in p.funcs.values() if not f.decl and any(
            i.op == 'store' and isinstance(i.ops[1], dict) and i.ops[1].get('g') == '_gst_gc_running' for i in f.instrs())}
        if len(self.entries) < 2: raise AnalysisBroken('collector entry points not recognised')
        self.boot = self._closed({f.name for f in p.by_base('_gst_init_dictionary')})
        self.inside = self._closed(self.entries) - self.boot
        # what may run a whole collection when called from inside one;
        # functions that look at the counter do not start another
        guard = {f.name for f in p.funcs.values() if not f.decl and f.name not in self.entries and any(
            i.op == 'load' and isinstance(i.ops[0], dict) and i.ops[0].get('g') == '_gst_gc_running' for i in f.instrs())}
        may = set(self.entries) | {n for n in p.funcs if n in self.EXT}
        ch = True
        while ch:
            ch = False
            for f, s in self.cg.items():
                if f not in may and f not in guard and s & may: may.add(f); ch = True
        self.full = may; self.guard = guard

    def path(self, f, limit=12):
        out = [f]
        while self.why.get(out[-1]) and len(out) < limit: out.append(self.why[out[-1]])
        return ' -> '.join(out)

    def gc_call(self, f, i):
        """name of a may-collect callee of call i, or None"""
        if i.op != 'call': return None
        may = self.full if f.name in self.inside and f.name not in self.entries else self.may
        for g in self.callees(f, i):
            if g in may: return g
        return None
