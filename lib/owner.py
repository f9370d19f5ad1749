"""Ownership of native memory over the VM's IR (V09)."""
from cfront import AnalysisBroken
from nesting import strip

UNLINK = {'rb_erase', 'avl_erase'}
OUTPAR = {x: 0 for x in 'asprintf vasprintf __asprintf_chk __vasprintf_chk snv_asprintf snv_vasprintf'.split()}     # stores the fresh block through this argument
ALLOC = {'malloc': True, 'calloc': True, 'strdup': True, 'strndup': True, 'wcsdup': True, 'aligned_alloc': True, 'fildelete': False}     # may return NULL
REALLOC = {'realloc'}
FREE = {'free'}
CAPTURES = {'putenv', 'setvbuf', 'atexit', 'pthread_create', 'ffi_prep_cif', 'ffi_prep_closure', 'ffi_prep_closure_loc', 'sigaltstack', 'setlinebuf', 'rl_bind_key'}


def k_alloca(f, o):
    d = f.defn(o)
    return d is not None and d.op == 'alloca'


class Owner:
    MAXSTATES = 6000

    def __init__(self, p, gc, only=None):
        self.p = p; self.gc = gc
        self.summ = {}       # func -> dict(ret=bool, par={k: 'free'|'keep'|'use'})
        self.takers = {f.name for f in p.funcs.values() if self.taker(f)}

    # ---- helpers
    def key(self, o):
        return int(o[1:]) if isinstance(o, str) and o[:1] == '%' else None

    def par(self, i, k):
        """effect of call i on pointer argument k"""
        cs = self.gc.callees(i.fn, i)
        if not cs: return 'keep'
        es = set()
        for c in cs:
            f = self.p.funcs.get(c)
            if c in FREE: es.add('free' if k == 0 else 'use')
            elif c in REALLOC: es.add('free' if k == 0 else 'use')
            elif c.startswith('llvm.'): es.add('use')
            elif c in CAPTURES: es.add('keep')
            elif f is None or f.decl: es.add('use')
            elif f.vararg and k >= len(f.params): es.add('use')
            else: es.add(self.summ.get(c, {}).get('par', {}).get(k, 'use'))
        if len(es) == 1: return es.pop()
        return 'keep'

    def fresh(self, i):
        """call i returns memory that the caller has to release: (owned, may be NULL)"""
        cs = self.gc.callees(i.fn, i)
        if len(cs) != 1 or i.ty != 'ptr': return False, False
        c = cs[0]
        if c in ALLOC: return True, True
        if c in REALLOC: return True, True
        s = self.summ.get(c)
        if s and s['ret']: return True, s['null']
        if c in self.takers: return True, True
        return False, False

    def taker(self, f):
        """f returns the contents of a global variable after clearing the variable: its owner changes"""
        if f.decl or f.ret != 'ptr': return False
        rets = [i for i in f.instrs() if i.op == 'ret']
        if len(rets) != 1 or not rets[0].ops: return False
        d = f.defn(strip(f, rets[0].ops[0]))
        if d is None or d.op != 'load' or not isinstance(d.ops[0], dict) or 'g' not in d.ops[0]: return False
        return any(i.op == 'store' and i.ops[1] == d.ops[0] and i.ops[0] in ('null', 0) for i in f.instrs())

    def outpar(self, i):
        """argument of call i through which a fresh block is stored, or None"""
        if i.callee in OUTPAR: return OUTPAR[i.callee]
        if i.callee == '_gst_msg_sendf' and isinstance(i.ops[1], dict) and i.ops[0] not in ('null', 0):
            s = self.p.globals.get(i.ops[1].get('g'), {}).get('init', {})
            if isinstance(s, dict) and s.get('s', '')[:2] in ('%s', '%W'): return 0
        return None

    def interesting(self, f):
        for i in f.calls():
            if self.fresh(i)[0]: return True
            if any(self.par(i, k) != 'use' for k, o in enumerate(i.ops) if self.gc.oty(f, o) == 'ptr'): return True
        return any(t == 'ptr' for t in f.params)

    # ---- parameters
    def param_effects(self, f):
        out = {}
        for k, t in enumerate(f.params):
            if t != 'ptr': continue
            out[k] = self.param_effect(f, k)
        return out

    def aliases(self, f, k):
        al = {k}; ch = True
        while ch:
            ch = False
            for i in f.instrs():
                if i.id in al: continue
                if i.op in ('bitcast', 'freeze') and self.key(i.ops[0]) in al or i.op == 'phi' and any(self.key(o) in al for o in i.ops) or \
                   i.op == 'select' and any(self.key(o) in al for o in i.ops[1:]):
                    al.add(i.id); ch = True
        return al

    def param_effect(self, f, k):
        al = self.aliases(f, k)
        # addresses computed from the parameter: storing them keeps it
        derived = set(al); ch = True
        while ch:
            ch = False
            for i in f.instrs():
                if i.id not in derived and (i.op == 'gep' and self.key(i.x['b']) in derived or i.op in ('bitcast', 'ptrtoint', 'inttoptr', 'phi', 'select', 'add', 'or') and
                                            any(self.key(o) in derived for o in i.ops)):
                    derived.add(i.id); ch = True
        keep = False; frees = set()
        for i in f.instrs():
            if i.op == 'store' and self.key(i.ops[0]) in derived: keep = True
            elif i.op == 'ret' and i.ops and self.key(i.ops[0]) in derived: keep = True
            elif i.op == 'call':
                for j, o in enumerate(i.ops):
                    if self.key(o) in derived:
                        e = self.par(i, j)
                        if e == 'keep': keep = True
                        elif e == 'free' and self.key(o) in al: frees.add(i.id)
        if not frees: return 'keep' if keep else 'use'
        if keep: return 'keep'
        # freed on all paths (the NULL edge does not count)?
        n = len(f.blocks); IN = [None] * n; IN[0] = False; work = [0]; unfreed = False
        while work:
            b = work.pop(); v = IN[b]; dead = False
            for i in f.blocks[b]:
                if i.id in frees: v = True
                elif i.op == 'call' and i.callee in self.p.funcs and self.p.funcs[i.callee].noreturn: dead = True; break
                elif i.op == 'ret' and not v: unfreed = True
            if dead: continue
            t = f.blocks[b][-1]
            for s in f.succs(b):
                nv = v or self.nulledge(f, t, s, al)
                m = nv if IN[s] is None else IN[s] and nv
                if m != IN[s]: IN[s] = m; work.append(s)
        return 'keep' if unfreed else 'free'

    def partial(self, f, k):
        """None: f never releases parameter k; True: on all paths; otherwise the return that is reached without"""
        al = self.aliases(f, k)
        frees = [i for i in f.calls() for j, o in enumerate(i.ops) if self.key(o) in al and self.par(i, j) == 'free']
        if not frees: return None
        if self.summ[f.name]['par'].get(k) == 'free': return True
        fr = {i.id for i in frees}
        for i in f.instrs():
            if i.op == 'store' and self.key(i.ops[0]) in al or i.op == 'ret' and i.ops and self.key(i.ops[0]) in al: return True
            if i.op == 'call' and i.id not in fr and any(self.key(o) in al and self.par(i, j) == 'keep' for j, o in enumerate(i.ops)): return True
        IN = {0}; work = [0]
        while work:
            b = work.pop(); stop = False
            for i in f.blocks[b]:
                if i.id in fr or i.op == 'call' and i.callee in self.p.funcs and self.p.funcs[i.callee].noreturn: stop = True; break
                if i.op == 'ret': return i
            if stop: continue
            for s in f.succs(b):
                if s not in IN and not self.nulledge(f, f.blocks[b][-1], s, al): IN.add(s); work.append(s)
        return True

    def params(self, f, k, report):
        """follows a block passed as parameter k of a function that releases it on some path"""
        al = self.aliases(f, k)
        if not any(self.par(i, j) == 'free' for i in f.calls() for j, o in enumerate(i.ops) if self.key(o) in al): return False
        self.one(f, None, True, report, None, None, k)
        return True

    def nulledge(self, f, t, s, al):
        """edge t -> s is taken only if an alias is NULL"""
        if t.op != 'br' or len(t.ops) != 3: return False
        c = f.defn(t.ops[0])
        if c is None or c.op != 'icmp' or c.x not in ('eq', 'ne'): return False
        a, b = c.ops
        if a == 'null' or a == 0: a, b = b, a
        if b not in ('null', 0) or self.key(a) not in al: return False
        tr, fa = t.succ()
        return tr != fa and s == (tr if c.x == 'eq' else fa)

    # ---- summaries
    def solve(self):
        fs = [f for f in self.p.funcs.values() if not f.decl]
        for f in fs: self.summ[f.name] = dict(ret=False, null=False, par={})
        for rounds in range(12):
            ch = False
            for f in fs:
                pe = self.param_effects(f)
                ret, null = self.returns(f)
                n = dict(ret=ret, null=null, par=pe)
                if n != self.summ[f.name]: self.summ[f.name] = n; ch = True
            if not ch: break
        else: raise AnalysisBroken('ownership summaries do not converge')

    def returns(self, f):
        """all returned values are fresh memory or NULL"""
        if f.ret != 'ptr': return False, False
        fresh = False; null = False
        def walk(o, seen):
            nonlocal fresh, null
            o = strip(f, o)
            if o == 'null' or o == 0: null = True; return True
            d = f.defn(o)
            if d is None: return False
            if d.id in seen: return True
            seen.add(d.id)
            if d.op == 'phi': return all(walk(x, seen) for x in d.ops)
            if d.op == 'select': return all(walk(x, seen) for x in d.ops[1:])
            if d.op == 'load' and k_alloca(f, d.ops[0]):
                # a local variable that only ever receives fresh blocks
                w = [i for i in f.instrs() if i.op == 'call' and any(o == d.ops[0] for o in i.ops) and not (i.callee or '').startswith('llvm.')]
                if any(i.op == 'store' and i.ops[1] == d.ops[0] for i in f.instrs()): return False
                if not w or not all(self.outpar(i) is not None and i.ops[self.outpar(i)] == d.ops[0] for i in w): return False
                if any(self.stored(f, i.id) for i in f.instrs() if i.op == 'load' and i.ops[0] == d.ops[0]): return False
                fresh = True; null = True
                return True
            if d.op == 'call':
                fr, nu = self.fresh(d)
                if fr:
                    # still owned: not stored anywhere else
                    if self.stored(f, d.id): return False
                    fresh = True; null |= nu
                    return True
            return False
        for i in f.instrs():
            if i.op == 'ret' and i.ops:
                if not walk(i.ops[0], set()): return False, False
        return fresh, null

    def stored(self, f, k):
        al = self.aliases(f, k)
        for i in f.instrs():
            if i.op == 'store' and self.key(i.ops[0]) in al:
                d = f.defn(i.ops[1])
                if d is None or d.op != 'alloca': return True
            if i.op == 'call':
                for j, o in enumerate(i.ops):
                    if self.key(o) in al and self.par(i, j) == 'keep': return True
        return False

    # ---- per-function typestate
    def condkey(self, f, o):
        d = f.defn(o); neg = False
        while d is not None and d.op == 'xor' and d.ops[1] in (1, -1, True):
            neg = not neg; o = d.ops[0]; d = f.defn(o)
        if d is None: return None
        NEG = {'ne': 'eq', 'sge': 'slt', 'sgt': 'sle', 'uge': 'ult', 'ugt': 'ule'}
        if d.op == 'icmp' and all(isinstance(x, (str, int)) for x in d.ops):
            c = d.x
            if c in NEG: return (NEG[c], d.ops[0], d.ops[1]), not neg
            return (c, d.ops[0], d.ops[1]), neg
        return d.id, neg

    def check(self, f, report):
        """report(kind, instr, alloc instr)"""
        sites = {i.id: self.fresh(i)[1] for i in f.calls() if self.fresh(i)[0]}
        for i in f.calls():
            op = self.outpar(i)
            if op is not None:
                d = f.defn(i.ops[op])
                if d is not None and d.op == 'alloca': sites[i.id] = True
        links = self.unlinks(f) if hasattr(self, 'heaptypes') else {}
        if not sites and not links: return 0
        n = 0
        for sid, node in links.items():
            n += 1
            self.one(f, sid, False, report, node)
        for sid, maynull in sites.items():
            n += 1
            self.one(f, sid, maynull, report)
        return n

    def armof(self, f, i, al, fa, multi):
        """which arm of select i is taken on this path, if known"""
        k = self.condkey(f, i.ops[0])
        if k is None: return None
        c = f.defn(i.ops[0])
        if c is not None and c.op == 'icmp' and c.x in ('eq', 'ne') and any(self.key(x) in al for x in c.ops) and any(x in ('null', 0) for x in c.ops): return c.x == 'ne'
        if (k[0], True) in fa: return True ^ k[1]
        if (k[0], False) in fa: return False ^ k[1]
        return None

    def escapes(self):
        """functions that do not return because they jump to a recovery point"""
        if not hasattr(self, '_esc'):
            self._esc = {f.name for f in self.p.funcs.values() if not f.decl and f.noreturn and
                         any(i.callee in ('longjmp', '_longjmp', 'siglongjmp', '__longjmp_chk') for i in f.calls())}
            ch = True
            while ch:
                ch = False
                for f in self.p.funcs.values():
                    if f.decl or not f.noreturn or f.name in self._esc: continue
                    if any(i.callee in self._esc for i in f.calls()): self._esc.add(f.name); ch = True
        return self._esc

    def one(self, f, sid, maynull, report, node=None, loc=None, param=None):
        site = f.ins[sid] if sid is not None else None
        loads, stores, lkey = loc or ((), (), None)
        cnt = {}
        for b in f.blocks:
            t = b[-1]
            if t.op == 'br' and len(t.ops) == 3:
                k = self.condkey(f, t.ops[0])
                if k: cnt[k[0]] = cnt.get(k[0], 0) + 1
        for i in f.instrs():
            if i.op == 'select':
                k = self.condkey(f, i.ops[0])
                if k: cnt[k[0]] = cnt.get(k[0], 0) + 1
        multi = {k for k, c in cnt.items() if c > 1}
        cells = {i.id for i in f.instrs() if i.op == 'alloca'}
        # state: (status, aliases, cells holding it, facts)
        IN = [set() for _ in f.blocks]; st0 = ('none', frozenset(), frozenset(), frozenset()) if param is None else ('own', frozenset([param]), frozenset(), frozenset())
        IN[0].add(st0); work = [(0, st0)]; cntst = 0; done = set()
        def rep(kind, i):
            if (kind, i.id) not in done: done.add((kind, i.id)); report(kind, i, site if site is not None else over[0])
        over = [None]
        while work:
            b, (st, al, ce, fa) = work.pop(); cntst += 1; entry = (st, al, ce, fa)
            if cntst > self.MAXSTATES: raise AnalysisBroken('too many ownership states in ' + f.name)
            dead = False
            for i in f.blocks[b]:
                if i.op == 'phi': continue
                k = self.key
                if node is not None and i.id == sid:
                    st = 'own'; al = frozenset([node] + [j.id for j in f.instrs() if j.op in ('bitcast', 'freeze') and k(j.ops[0]) == node]); ce = frozenset()
                    continue
                if i.id in loads:
                    if st in ('none', 'gone'): st = 'held'; al = frozenset([i.id]); ce = frozenset()
                    elif st == 'held': al |= {i.id}
                    continue
                if i.id in stores:
                    v = k(strip(f, i.ops[0]))
                    if st == 'held': 
                        if v not in al: st = 'own'; over[0] = i
                    elif st in ('freed', 'gone'): st = 'none'; al = frozenset(); ce = frozenset()
                    continue
                if lkey is not None and i.op == 'call' and st == 'held' and lkey in self.writers.get(i.callee, ()): st = 'none'; al = frozenset(); ce = frozenset()
                if i.id in al and i.id != sid: al -= {i.id}        # executed again: another value
                if i.op in ('bitcast', 'freeze') and k(i.ops[0]) in al: al |= {i.id}
                elif i.op == 'select' and any(k(o) in al for o in i.ops[1:]):
                    v = self.armof(f, i, al, fa, multi)
                    if v is None and st == 'own' and not all(k(o) in al for o in i.ops[1:]) and (ck := self.condkey(f, i.ops[0])) is not None:
                        # decided both ways
                        for x in (True, False):
                            nst = entry[:3] + (entry[3] | {(ck[0], x)},)
                            if nst not in IN[b]: IN[b].add(nst); work.append((b, nst))
                        dead = True; break
                    if v is None or k(i.ops[1 if v else 2]) in al: al |= {i.id}
                elif i.op == 'gep' and k(i.x['b']) in al: al |= {i.id} if not i.x['v'] and not i.x['o'] else frozenset(); 
                elif i.op == 'load' and k(i.ops[0]) in ce: al |= {i.id}
                elif i.op == 'store':
                    if k(i.ops[0]) in al:
                        if k(i.ops[1]) in cells: ce |= {k(i.ops[1])}
                        elif st in ('own', 'held'): st = 'gone'; al = frozenset(); ce = frozenset()
                    elif k(i.ops[1]) in ce: ce -= {k(i.ops[1])}
                    elif k(i.ops[1]) in al and st == 'freed': rep('use', i)
                elif i.op == 'ret':
                    if i.ops and k(i.ops[0]) in al:
                        if st == 'freed': rep('returned', i)
                        if st == 'own': st = 'gone'
                    if st == 'own': rep('leak' if loc is None else 'overwritten', i)
                elif i.op == 'call':
                    c = i.callee
                    if c and c in self.p.funcs and self.p.funcs[c].noreturn:
                        if st == 'own' and c in self.escapes() and not any(k(o) in al for o in i.ops): rep('leak' if loc is None else 'overwritten', i)
                        dead = True; break
                    if i.id == sid:
                        # a reallocation releases its argument
                        for j, o in enumerate(i.ops):
                            if k(o) in al and self.par(i, j) == 'free':
                                if st == 'freed': rep('double', i)
                                st = 'freed'
                        if st == 'own': rep('again', i)
                        st = 'own'; al = frozenset([sid]); ce = frozenset()
                        if self.outpar(i) is not None: al = frozenset(); ce = frozenset([k(i.ops[self.outpar(i)])])
                        continue
                    if c and c.startswith('llvm.lifetime'):
                        continue
                    for j, o in enumerate(i.ops):
                        if k(o) in al:
                            e = self.par(i, j)
                            if st == 'freed':
                                rep('double' if e == 'free' else 'use', i)
                            elif e == 'free':
                                st = 'freed'
                                if c in REALLOC: fa |= {(('realloc', i.id), True)}
                            elif e == 'keep': st = 'gone'; al = frozenset(); ce = frozenset()
                        elif k(o) in ce and c not in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0'):
                            g = self.p.funcs.get(c)
                            ce -= {k(o)}
                            if g is None or not g.decl or not al and not ce: st = 'gone'; al = frozenset(); ce = frozenset()
                elif i.op == 'load' and k(i.ops[0]) in al and st == 'freed': rep('use', i)
                elif i.op == 'ptrtoint' and k(i.ops[0]) in al:
                    # converted to a number: followed no further unless only compared
                    st = 'gone' if st in ('own', 'held') else st
            if dead: continue
            t = f.blocks[b][-1]
            key = self.condkey(f, t.ops[0]) if t.op == 'br' and len(t.ops) == 3 else None
            for ns, s in enumerate(t.succ()):
                st2, fa2 = st, fa
                if st in ('own', 'held') and self.nulledge(f, t, s, al):
                    if not maynull: continue
                    st2 = 'none'
                if st == 'freed':
                    # a reallocation that fails keeps its argument
                    for kk, _ in fa:
                        if isinstance(kk, tuple) and kk[0] == 'realloc' and any(self.nulledge(f, t, z, {kk[1]}) for z in t.succ()):
                            if self.nulledge(f, t, s, {kk[1]}): st2 = 'own'
                            fa2 -= {(kk, True)}
                if key and key[0] in multi:
                    val = (ns == 0) ^ key[1]
                    if (key[0], not val) in fa: continue
                    fa2 = fa2 | {(key[0], val)}
                # integer conditions known from phi constants
                al2 = al; defs = {i.id for i in f.blocks[s]}
                ok = True
                new = set()
                for i in f.blocks[s]:
                    if i.op != 'phi': break
                    for pb, o in zip(i.x, i.ops):
                        if pb == b and self.key(o) in al: new.add(i.id)
                fa3 = set(x for x in fa2 if not (isinstance(x[0], int) and x[0] in defs) and
                          not (isinstance(x[0], tuple) and any(self.key(z) in defs for z in x[0][1:])))
                for i in f.blocks[s]:
                    if i.op != 'phi': break
                    for pb, o in zip(i.x, i.ops):
                        if pb == b:
                            if isinstance(o, int) or o == 'null':
                                # facts about comparisons of this phi with constants
                                for kk in multi | set(cnt):
                                    if isinstance(kk, tuple) and kk[1] == '%%%d' % i.id and (isinstance(kk[2], int) or kk[2] == 'null') and kk[0] == 'eq':
                                        fa3.add((kk, (o == kk[2]) or (o in (0, 'null') and kk[2] in (0, 'null'))))
                                    elif kk == i.id and isinstance(o, int): fa3.add((kk, bool(o)))
                            elif self.key(o) in al and st2 == 'own' and not maynull:
                                for kk in cnt:
                                    if isinstance(kk, tuple) and kk[1] == '%%%d' % i.id and kk[2] in ('null', 0) and kk[0] == 'eq': fa3.add((kk, False))
                # drop facts never tested again is left to the state cap
                al2 = frozenset(x for x in al if x not in defs) | frozenset(new) if st2 in ('own', 'held', 'freed') else frozenset()
                nst = (st2, al2, ce if st2 in ('own', 'held', 'freed') else frozenset(), frozenset(fa3))
                # a fact decided by a phi constant also prunes single tests
                if key and (key[0], not ((ns == 0) ^ key[1])) in fa: continue
                if nst not in IN[s]:
                    IN[s].add(nst); work.append((s, nst))

    # ---- structures that hold a resource (gst_mpz)
    def paramof(self, f, a):
        a = strip(f, a); d = f.defn(a)
        while d is not None and d.op in ('gep', 'bitcast'):
            a = strip(f, d.x['b'] if d.op == 'gep' else d.ops[0]); d = f.defn(a)
        k = self.key(a)
        return k if k is not None and k < len(f.params) else None

    def solve_structs(self):
        """fills[f]: parameters into whose structure f may store fresh memory; clears: parameters whose contents f may free"""
        fs = [f for f in self.p.funcs.values() if not f.decl]
        self.fills = {f.name: set() for f in fs}; self.clears = {f.name: set() for f in fs}
        ch = True
        while ch:
            ch = False
            for f in fs:
                F = self.fills[f.name]; D = self.clears[f.name]; n = len(F), len(D)
                for i in f.instrs():
                    if i.op == 'store':
                        d = f.defn(strip(f, i.ops[0])); k = self.paramof(f, i.ops[1])
                        if d is not None and d.op == 'call' and k is not None and self.fresh(d)[0]: F.add(k)
                    elif i.op == 'call':
                        for c in self.gc.callees(f, i):
                            for j, a in enumerate(i.ops):
                                if j in self.fills.get(c, ()) or j in self.clears.get(c, ()):
                                    k = self.paramof(f, a)
                                    if k is not None:
                                        if j in self.fills[c]: F.add(k)
                                        if j in self.clears[c]: D.add(k)
                                if self.par(i, j) == 'free':
                                    d = f.defn(strip(f, a))
                                    if d is not None and d.op == 'load':
                                        k = self.paramof(f, d.ops[0])
                                        if k is not None: D.add(k)
                if n != (len(F), len(D)): ch = True
        self.destructors = {f.name for f in fs if len(f.params) == 1 and self.clears[f.name] and not self.fills[f.name]}
        self.owned_types = set()
        for f in fs:
            for i in f.calls():
                if i.callee in self.destructors:
                    d = f.defn(strip(f, i.ops[0]))
                    if d is not None and d.op == 'alloca': self.owned_types.add(d.x[0])

    def check_structs(self, f, report):
        """-> (structures, paths' end points)"""
        n = 0
        for i in f.instrs():
            if i.op == 'alloca' and i.x[0] in self.owned_types and self.escapes_only_to_calls(f, i):
                n += 1
                self.struct_one(f, i, report)
        return n

    def root(self, f, o):
        d = f.defn(o)
        while d is not None and d.op in ('gep', 'bitcast'):
            o = d.x['b'] if d.op == 'gep' else d.ops[0]; d = f.defn(o)
        return d.id if d is not None else None

    def escapes_only_to_calls(self, f, a):
        return any(i.op == 'call' and any(self.root(f, o) == a.id for o in i.ops) for i in f.instrs())

    def struct_one(self, f, a, report):
        cnt = {}
        for b in f.blocks:
            t = b[-1]
            if t.op == 'br' and len(t.ops) == 3:
                k = self.condkey(f, t.ops[0])
                if k: cnt[k[0]] = cnt.get(k[0], 0) + 1
        multi = {k for k, c in cnt.items() if c > 1}
        IN = [set() for _ in f.blocks]; s0 = ('uninit', frozenset()); IN[0].add(s0); work = [(0, s0)]; n = 0; done = set()
        def rep(kind, i):
            if (kind, i.id) not in done: done.add((kind, i.id)); report(kind, i, a)
        while work:
            b, (st, fa) = work.pop(); n += 1; dead = False
            if n > self.MAXSTATES: raise AnalysisBroken('too many states in ' + f.name)
            for i in f.blocks[b]:
                if i.op == 'store' and self.root(f, i.ops[1]) == a.id:
                    v = f.defn(strip(f, i.ops[0]))
                    if v is not None and v.op == 'alloca' or st == 'lent': st = 'lent'      # works in stack memory
                    elif st == 'uninit' or st == 'dead': st = 'clean'
                elif i.op == 'call':
                    c = i.callee
                    if c and c in self.p.funcs and self.p.funcs[c].noreturn: dead = True; break
                    if c and c.startswith('llvm.lifetime'): continue
                    for j, o in enumerate(i.ops):
                        if self.root(f, o) != a.id: continue
                        if c and c.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                            if j == 0: st = 'clean'
                            continue
                        if c in self.destructors:
                            if st == 'dead': rep('double', i)
                            elif st == 'uninit': rep('uninit', i)
                            st = 'dead'
                        else:
                            fill = any(j in self.fills.get(x, ()) for x in self.gc.callees(f, i))
                            if st == 'dead': rep('use', i)
                            elif st == 'uninit' and fill: rep('uninit', i)
                            if fill and st != 'lent': st = 'own'
                elif i.op == 'ret' and st == 'own': rep('leak', i)
            if dead: continue
            t = f.blocks[b][-1]
            key = self.condkey(f, t.ops[0]) if t.op == 'br' and len(t.ops) == 3 else None
            for ns, s in enumerate(t.succ()):
                fa2 = fa
                if key and key[0] in multi:
                    val = (ns == 0) ^ key[1]
                    if (key[0], not val) in fa: continue
                    fa2 = fa | {(key[0], val)}
                defs = {i.id for i in f.blocks[s]}
                fa2 = frozenset(x for x in fa2 if not (isinstance(x[0], int) and x[0] in defs) and
                                not (isinstance(x[0], tuple) and any(self.key(z) in defs for z in x[0][1:])))
                nst = st, fa2
                if nst not in IN[s]: IN[s].add(nst); work.append((s, nst))

    # ---- blocks that hang off other blocks
    def basetypes(self, f):
        """SSA pointer -> structure it points to (from the type-based alias tags of the accesses through it)"""
        vote = {}
        for i in f.instrs():
            if i.op not in ('load', 'store') or not isinstance(i.x, list) or i.x[0] in ('?', '', 'any pointer', 'int', 'omnipotent char', 'long', 'short'): continue
            b, off = self.baseoff(f, i.ops[0] if i.op == 'load' else i.ops[1])
            if off == i.x[2]: vote.setdefault(b, {}).setdefault(i.x[0], 0); vote[b][i.x[0]] += 1
        return {b: max(sorted(v), key=v.get) for b, v in vote.items()}

    def baseoff(self, f, o):
        off = 0; d = f.defn(o)
        while d is not None and (d.op == 'gep' and not d.x['v'] or d.op == 'bitcast'):
            if d.op == 'gep': off += d.x['o']; o = d.x['b']
            else: o = d.ops[0]
            d = f.defn(o)
        return (repr(o), off)

    def loadsof(self, f, o):
        """load instructions whose value o may be"""
        st = [f.defn(strip(f, o))]; seen = set(); out = []
        while st:
            d = st.pop()
            if d is None or d.id in seen: continue
            seen.add(d.id)
            if d.op in ('phi', 'select'): st += [f.defn(strip(f, x)) for x in (d.ops if d.op == 'phi' else d.ops[1:])]
            elif d.op == 'load': out.append(d)
        return out

    def freshval(self, f, o):
        """the call whose fresh block o is, possibly through a choice between it and NULL"""
        st = [strip(f, o)]; seen = set(); r = None
        while st:
            x = st.pop(); d = f.defn(x)
            if x in ('null', 0): continue
            if d is None: return None
            if d.id in seen: continue
            seen.add(d.id)
            if d.op == 'phi': st += [strip(f, y) for y in d.ops]
            elif d.op == 'select': st += [strip(f, y) for y in d.ops[1:]]
            elif d.op == 'call' and self.fresh(d)[0]: r = d
            else: return None
        return r

    def solve_fields(self):
        groups = {}; self.ownfields = {}; self.freefields = {}; self.heaptypes = set(); self.freetypes = {}
        for f in self.p.funcs.values():
            if f.decl: continue
            if not any(i.op == 'call' for i in f.instrs()): continue
            ty = self.basetypes(f)
            for i in f.instrs():
                if i.op == 'store':
                    d = self.freshval(f, i.ops[0])
                    if d is not None:
                        b, off = self.baseoff(f, i.ops[1])
                        if b in ty: groups.setdefault((f.name, d.id), []).append(((ty[b], off), i))
                elif i.op == 'call':
                    if self.fresh(i)[0] and repr('%%%d' % i.id) in ty: self.heaptypes.add(ty[repr('%%%d' % i.id)])
                    for j, a in enumerate(i.ops):
                        if self.par(i, j) != 'free': continue
                        b, off = self.baseoff(f, strip(f, a))
                        if b in ty and off == 0: self.freetypes.setdefault(ty[b], i)
                        for d in self.loadsof(f, a):
                            b, off = self.baseoff(f, d.ops[0])
                            if b in ty: self.freefields.setdefault((ty[b], off), i)

        for g in groups.values():
            for k, i in g:
                if k in self.freefields or not any(x in self.freefields for x, _ in g): self.ownfields.setdefault(k, i)

    def unlinks(self, f):
        """instructions that take a node out of a list or tree of malloc'ed nodes: head := head->next, rb_erase (node)"""
        out = {}
        ty = self.basetypes(f)
        def addrs(o, seen):
            o = strip(f, o); d = f.defn(o)
            if d is not None and d.op == 'phi':
                if d.id in seen: return set()
                seen.add(d.id); r = set()
                for x in d.ops: r |= addrs(x, seen)
                return r | {self.baseoff(f, o)}
            return {self.baseoff(f, o)}
        for i in f.instrs():
            if i.op == 'call' and i.callee in UNLINK:
                b, off = self.baseoff(f, strip(f, i.ops[0]))
                if b in ty and ty[b] in self.heaptypes and b.startswith("'%") and off == 0: out[i.id] = int(eval(b)[1:])
                continue
            if i.op != 'store': continue
            d = f.defn(strip(f, i.ops[0]))
            if d is None or d.op != 'load': continue
            b, off = self.baseoff(f, d.ops[0])
            if b not in ty or ty[b] not in self.heaptypes or not b.startswith("'%"): continue
            node = f.defn(eval(b))
            if node is None or node.op not in ('load', 'phi'): continue
            if node.op == 'phi' and any((x := f.defn(strip(f, z))) is None or x.op != 'load' for z in node.ops): continue
            A = addrs(i.ops[1], set())
            if all(self.baseoff(f, l.ops[0]) in A for l in self.loadsof(f, eval(b))): out[i.id] = node.id
        return out

    # ---- the block a location held is not forgotten
    def detached(self, f, key, isloc, report):
        """follows the block found in a location (isloc(address)) that f overwrites"""
        loads = {i.id for i in f.instrs() if i.op == 'load' and isloc(i.ops[0])}
        stores = {i.id for i in f.instrs() if i.op == 'store' and isloc(i.ops[1])}
        self.isloc = isloc
        if not loads or not stores: return 0
        self.one(f, None, True, report, None, (loads, stores, key))
        return len(stores)

    def owned_locations(self, f):
        """(type, offset, base) of the fields of f's structures that receive fresh blocks and are released somewhere"""
        ty = self.basetypes(f); out = {}
        for i in f.instrs():
            if i.op != 'store': continue
            d = f.defn(strip(f, i.ops[0])); fr = d is not None and d.op == 'call' and self.fresh(d)[0]
            if not fr and i.ops[0] not in ('null', 0): continue
            b, off = self.baseoff(f, i.ops[1])
            if not b.startswith("'%"): continue
            t = ty.get(b) or next((g.x['t'] for g in f.instrs() if g.op == 'gep' and repr(g.x['b']) == b), '?')
            if (t, off) in self.heldfields or fr and t in self.owned_types: out.setdefault((t, off, b), i)
        return out

    def solve_writers(self, globs):
        self.writers = {}
        for f in self.p.funcs.values():
            if f.decl: continue
            w = {g for i in f.instrs() if i.op == 'store' and isinstance(i.ops[1], dict) and (g := i.ops[1].get('g')) in globs}
            self.writers[f.name] = w
        ch = True
        while ch:
            ch = False
            for f in self.p.funcs.values():
                if f.decl: continue
                for i in f.calls():
                    for c in self.gc.callees(f, i):
                        x = self.writers.get(c, set()) - self.writers[f.name]
                        if x: self.writers[f.name] |= x; ch = True

    def solve_held(self):
        """fields that own a block: they receive fresh blocks and are released, and are not links to the next node"""
        self.heldfields = set(self.ownfields) & set(self.freefields)
        for f in self.p.funcs.values():
            if f.decl: continue
            ty = self.basetypes(f)
            for i in f.instrs():
                if i.op == 'load':
                    b, off = self.baseoff(f, i.ops[0]); t = ty.get(b)
                    if t and ty.get(repr('%%%d' % i.id)) == t: self.heldfields.discard((t, off))
                elif i.op == 'store':
                    b, off = self.baseoff(f, i.ops[1]); t = ty.get(b)
                    if t and ty.get(repr(strip(f, i.ops[0]))) == t: self.heldfields.discard((t, off))

    def freed_fields(self, f, t, depth=0):
        """{offset: [release calls]} of fields of a t released in f or by what f calls"""
        ty = self.basetypes(f); out = {}
        for i in f.calls():
            if depth < 2 and any(ty.get(repr(a)) == t for a in i.ops):
                for c in self.gc.callees(f, i):
                    g = self.p.funcs.get(c)
                    if g is not None and not g.decl and g is not f:
                        for off in self.freed_fields(g, t, depth + 1): out.setdefault(off, []).append(i)
            for j, a in enumerate(i.ops):
                if self.par(i, j) != 'free': continue
                for d in self.loadsof(f, a):
                    b, off = self.baseoff(f, d.ops[0])
                    if ty.get(b) == t: out.setdefault(off, []).append(i)
        return out

    def node_releases(self, f):
        """(release call, type) of structures with owned fields"""
        ty = self.basetypes(f); T = {t for t, _ in self.heldfields}
        for i in f.calls():
            for j, a in enumerate(i.ops):
                if self.par(i, j) != 'free': continue
                b, off = self.baseoff(f, strip(f, a)); t = ty.get(b)
                if off != 0 or t not in T: continue
                cs = [self.p.funcs[c] for c in self.gc.callees(f, i) if c in self.p.funcs and not self.p.funcs[c].decl]
                if any(t in self.basetypes(g).values() for g in cs): continue       # that function releases it
                yield i, t

    def frame_fields(self, f):
        """(store, type, offset, return) fields of a structure in f's own frame that f fills with a fresh block; the return reached without releasing it, or None"""
        T = {t for t, _ in self.heldfields}
        mine = {i.x[0].replace('struct.', '').split('.')[0] for i in f.instrs() if i.op == 'alloca' and isinstance(i.x[0], str)} & T
        if not mine: return
        ty = self.basetypes(f)
        for i in f.instrs():
            if i.op != 'store': continue
            d = f.defn(strip(f, i.ops[0]))
            if d is None or d.op != 'call' or not self.fresh(d)[0]: continue
            b, off = self.baseoff(f, i.ops[1])
            if ty.get(b) not in mine or (ty[b], off) not in self.heldfields: continue
            rel = {id(x) for x in self.freed_fields(f, ty[b]).get(off, [])}
            bi = next(k for k, bl in enumerate(f.blocks) if i in bl)
            todo = [(bi, f.blocks[bi].index(i))]; seen = set(); bad = None
            while todo and bad is None:
                k, st = todo.pop()
                for x in f.blocks[k][st:]:
                    if id(x) in rel or x.op == 'call' and x.callee in self.p.funcs and self.p.funcs[x.callee].noreturn: break
                    if x.op == 'ret': bad = x; break
                else:
                    for s in f.succs(k):
                        if s not in seen: seen.add(s); todo.append((s, 0))
            yield i, ty[b], off, bad

    # ---- structures with variants
    def variants(self, acq=()):
        """(constructor, type tag, what, place, ok): what a constructor of a variant obtains, its destructor gives up for that tag"""
        makers = {}        # function -> (type, tag offset, parameter)
        for f in self.p.funcs.values():
            if f.decl or not self.summ.get(f.name) or f.ret != 'ptr': continue
            ty = self.basetypes(f)
            for i in f.instrs():
                if i.op != 'store': continue
                b, off = self.baseoff(f, i.ops[1]); k = self.key(strip(f, i.ops[0]))
                if ty.get(b) in self.heaptypes and k is not None and k < len(f.params) and f.params[k] == 'i32' and self.freshval(f, eval(b)) is not None:
                    makers[f.name] = (ty[b], off, k)
        dtors = {}
        for f in self.p.funcs.values():
            if f.decl: continue
            ty = self.basetypes(f)
            rel = [i for i in f.calls() for j, a in enumerate(i.ops) if self.par(i, j) == 'free' and ty.get(self.baseoff(f, strip(f, a))[0]) in self.heaptypes and self.baseoff(f, strip(f, a))[1] == 0]
            for bi, bl in enumerate(f.blocks):
                t = bl[-1]
                if t.op != 'switch': continue
                d = f.defn(t.ops[0])
                if d is None or d.op != 'load': continue
                b, off = self.baseoff(f, d.ops[0])
                if ty.get(b) in self.heaptypes and rel: dtors.setdefault((ty[b], off), []).append((f, bi, t, b))
        for f in self.p.funcs.values():
            if f.decl: continue
            for i in f.calls():
                if i.callee not in makers: continue
                T, toff, k = makers[i.callee]
                if not isinstance(i.ops[k], int) or (T, toff) not in dtors: continue
                base = repr('%%%d' % i.id); got = {}; where = {}
                for s in f.instrs():
                    if s.op != 'store': continue
                    b, off = self.baseoff(f, s.ops[1])
                    if b != base: continue
                    d = self.freshval(f, s.ops[0]); v = strip(f, s.ops[0])
                    if s.ops[0] in ('null', 0) and (T, off) in self.heldfields: got.setdefault(('block', s.id), set()).add(off); where[('block', s.id)] = s
                    elif d is not None: got.setdefault(('block', d.id), set()).add(off); where[('block', d.id)] = s
                    elif self.key(v) is not None and self.key(v) < len(f.params): where[('par', self.key(v))] = s; got.setdefault(('par', self.key(v)), set()).add(off)
                for (kind, x), offs in sorted(got.items()):
                    need = None
                    if kind == 'block': need = 'free'
                    elif any(c.callee == '_gst_register_oop' and self.key(c.ops[0]) == x for c in f.calls()): need = 'unregister'
                    elif f.params[x] == 'i32' and any((d := g.defn(strip(g, c.ops[x]))) is not None and d.op == 'call' and d.callee in acq for g in self.p.funcs.values() if not g.decl for c in g.calls() if c.callee == f.name): need = 'close'
                    if need is None: continue
                    ok = all(self.givesup(g, bi, t, b, i.ops[k], offs, need) for g, bi, t, b in dtors[(T, toff)])
                    yield f, i.ops[k], need, sorted(offs), where[(kind, x)], ok, dtors[(T, toff)][0][0]

    def givesup(self, g, bi, t, b, tag, offs, need):
        tgt = None; ops = t.ops
        for v, bb in zip(ops[2::2], ops[3::2]):
            if v == tag: tgt = bb['bb']
        if tgt is None: tgt = ops[1]['bb']
        # blocks reached for this tag, and those that lead to the switch
        pre = [x for x in range(len(g.blocks)) if bi in self.reach(g, x)] + [bi]
        blocks = set(self.reach(g, tgt)) | {tgt} | set(pre)
        for x in blocks:
            for i in g.blocks[x]:
                if i.op != 'call': continue
                for j, a in enumerate(i.ops):
                    good = self.par(i, j) == 'free' if need == 'free' else i.callee == {'close': 'close', 'unregister': '_gst_unregister_oop'}[need]
                    if not good: continue
                    for d in self.loadsof(g, a) or ([g.defn(strip(g, a))] if g.defn(strip(g, a)) is not None else []):
                        if d.op == 'load':
                            b2, off = self.baseoff(g, d.ops[0])
                            if b2 == b and off in offs: return True
        return False

    def reach(self, g, x):
        todo = list(g.succs(x)); seen = set()
        while todo:
            y = todo.pop()
            if y in seen: continue
            seen.add(y); todo += g.succs(y)
        return seen
