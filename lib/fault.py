"""Forward walk of all paths after a call whose outcome is assumed.

Values: integers, UNK, OK(id) (a successful result: not an error value),
STALE (errno after a call that succeeded).  A value computed from an error
result is tainted.  Paths are kept apart by the values known on them.
"""
from sccp import width, _wrap, _sg
UNK = '?'
STALE = 'stale'
SCMP = 'stale-test'    # outcome of a test of a stale errno
CAP = 4000
PURE_ERRNO = ('__errno_location', 'free', 'xfree', 'llvm.', 'strlen', 'memcpy', 'memset', 'strcmp', 'memcmp', 'strchr')


class Ok:
    """A result that is known not to be an error."""
    def __init__(self, id, lo=0): self.id = id; self.lo = lo
    def __eq__(self, o): return isinstance(o, Ok) and o.id == self.id and o.lo == self.lo
    def __hash__(self): return hash(('ok', self.id, self.lo))
    def __repr__(self): return 'ok%d' % self.id


class Exit:
    def __init__(self, kind, i, val=None, taint=False, errno=UNK, trace=()):
        self.kind = kind; self.i = i; self.val = val; self.taint = taint; self.errno = errno; self.trace = trace


NORETURN = ('longjmp', '_longjmp', 'siglongjmp', 'abort', 'exit', '_exit', '__assert_fail')


class Walk:
    """exits: list of Exit; events through on_sink(kind, instr)"""
    def __init__(self, p, sinks_ok=(), depth=3):
        self.p = p; self.depth = depth; self.nested = False

    def run(self, f, start, val, taint, errno=UNK, sink=None, watch=None, stale=None, params=None, onload=None):
        """start: call instruction (walk begins behind it) or None (entry, params given)."""
        self.sink = sink or (lambda k, i: None); self.watch = watch; self.stale = stale; self.onload = onload
        exits = []
        if start is not None:
            env = {k: v for k, v in self.context(f, start).items() if k in self.live(f)[start.bb] or f.ins[k].bb == start.bb}
            env[start.id] = val; tn = frozenset([start.id]) if taint else frozenset()
            work = [(start.bb, start.idx + 1, None, env, tn, errno, {}, ())]
        else:
            env = dict(params[0]); tn = frozenset(params[1])
            work = [(0, 0, None, env, tn, errno, {}, ())]
        return self.loop(f, work, exits)

    def run_edge(self, f, pred, bb):
        """exits of the paths that begin with one edge"""
        self.sink = lambda k, i: None; self.watch = self.stale = self.onload = None
        return self.loop(f, [(bb, 0, pred, {}, frozenset(), UNK, {}, ())], [])

    def loop(self, f, work, exits):
        seen = set(); n = 0
        while work:
            bb, idx, pred, env, tn, en, mem, ev = work.pop()
            key = (bb, idx, pred, frozenset(env.items()), tn, en, frozenset(mem.items()), ev)
            if key in seen: continue
            seen.add(key); n += 1
            if n > CAP: raise RuntimeError('too many paths in ' + f.name)
            self.block(f, bb, idx, pred, dict(env), set(tn), en, dict(mem), ev, work, exits, n > CAP // 2)
        return exits

    def get(self, f, env, o):
        if isinstance(o, bool): return int(o)
        if isinstance(o, int): return o
        if o == 'null': return 0
        if isinstance(o, str) and o[:1] == '%': return env.get(int(o[1:]), UNK)
        if isinstance(o, dict) and o.get('ce') == 'inttoptr':
            v = o.get('v', o.get('a'))
            if isinstance(v, list) and len(v) == 1: v = v[0]
            return v if isinstance(v, int) else UNK
        return UNK

    def ty(self, f, o):
        d = f.defn(o)
        if d is not None: return d.ty
        k = f.param(o)
        return f.params[k] if k is not None else None

    def block(self, f, bb, idx, pred, env, tn, en, mem, ev, work, exits, coarse):
        get = lambda o: self.get(f, env, o)
        tainted = lambda o: isinstance(o, str) and o[:1] == '%' and int(o[1:]) in tn
        errp = lambda o: isinstance(o, str) and f.defn(o) is not None and f.defn(o).op == 'call' and f.defn(o).callee == '__errno_location'
        blk = f.blocks[bb]
        # phis are evaluated together
        if idx == 0 and pred is not None:
            new = {}; nt = {}
            for i in blk:
                if i.op != 'phi': break
                for pb, o in zip(i.x, i.ops):
                    if pb == pred:
                        new[i.id] = get(o); nt[i.id] = tainted(o); break
                idx += 1
            for k, v in new.items():
                if v == UNK or (coarse and not nt[k]): env.pop(k, None)
                else: env[k] = v
                (tn.add if nt[k] else tn.discard)(k)
        for i in blk[idx:]:
            op = i.op
            if op == 'call':
                c = i.callee
                # uses of an error result
                for k, a in enumerate(i.ops):
                    if tainted(a) and (c or '').startswith('llvm.'): continue
                    if tainted(a): self.arg(f, i, k, get(a))
                if self.watch:
                    r = self.watch(f, i, [get(a) for a in i.ops], en)
                    if r == 'stop':
                        exits.append(Exit('stop', i, None, False, en, ev)); return
                    if r is not None: ev = ev + (r,) if r not in ev else ev
                if c in NORETURN or (c in self.p.funcs and self.p.funcs[c].noreturn):
                    exits.append(Exit('noreturn', i, c, False, en, ev)); return
                if not (c or '').startswith(PURE_ERRNO): en = UNK
                env.pop(i.id, None); tn.discard(i.id)
                continue
            if op == 'load':
                if self.onload: self.onload(i)
                if errp(i.ops[0]): env[i.id] = en; tn.discard(i.id)
                else:
                    if tainted(i.ops[0]): self.sink('address', i)
                    a = f.defn(i.ops[0]); v = UNK
                    if a is not None and a.op == 'alloca': v = mem.get(a.id, UNK)
                    tn.discard(i.id)
                    if isinstance(v, tuple): v, t = v; (tn.add(i.id) if t else None)
                    env[i.id] = v
                if env[i.id] == UNK: env.pop(i.id)
                continue
            if op == 'store':
                if errp(i.ops[1]): en = get(i.ops[0]) if isinstance(get(i.ops[0]), int) else UNK
                else:
                    a = f.defn(i.ops[1])
                    if tainted(i.ops[1]): self.sink('address', i)
                    if a is not None and a.op == 'alloca':
                        v = get(i.ops[0])
                        if v == UNK and not tainted(i.ops[0]): mem.pop(a.id, None)
                        else: mem[a.id] = (v, tainted(i.ops[0]))
                    else:
                        k = self.cell(f, i.ops[1])
                        if tainted(i.ops[0]):
                            if self.nested: self.sink('stored', i)
                            else: ev = ev + (('cell', k, i),)
                        elif any(x[0] == 'cell' and x[1] == k for x in ev if isinstance(x, tuple)):
                            ev = tuple(x for x in ev if not (isinstance(x, tuple) and x[0] == 'cell' and x[1] == k))
                continue
            if op in ('br', 'switch', 'ret', 'unreachable'): break
            if op in ('phi', 'alloca'): continue
            # arithmetic
            t = any(tainted(o) for o in i.ops)
            v = self.ev(f, i, get)
            if op in ('icmp', 'fcmp'): t = False
            if op == 'select':
                c = get(i.ops[0])
                t = tainted(i.ops[1]) if c == 1 else tainted(i.ops[2]) if c == 0 else (tainted(i.ops[1]) or tainted(i.ops[2]))
            if op == 'inttoptr' and t and 'tagged' not in ev: ev = ev + ('tagged',)
            if op == 'gep' and t and not isinstance(v, int): v = UNK
            if v == UNK: env.pop(i.id, None)
            else: env[i.id] = v
            (tn.add if t else tn.discard)(i.id)
        t = blk[-1]
        if t.op == 'ret':
            v = get(t.ops[0]) if t.ops else None
            exits.append(Exit('ret', t, v, bool(t.ops) and tainted(t.ops[0]), en, ev)); return
        if t.op == 'unreachable': exits.append(Exit('noreturn', t, None, False, en, ev)); return
        succ = t.succ(); take = list(dict.fromkeys(succ)); facts = {}
        if t.op == 'br' and len(t.ops) == 3:
            c = get(t.ops[0])
            if c in (STALE, SCMP) and self.stale: self.stale(t)
            if isinstance(c, int): take = [succ[0] if c & 1 else succ[1]]
            else:
                for s, pol in ((succ[0], 1), (succ[1], 0)):
                    facts[s] = self.refine(f, t.ops[0], pol, env, get) if succ[0] != succ[1] else {}
        elif t.op == 'switch':
            c = get(t.ops[0])
            if c in (STALE, SCMP) and self.stale: self.stale(t)
            if isinstance(c, int):
                w = width(self.ty(f, t.ops[0]) or '') or 64
                dst = t.ops[1]['bb']
                for k in range(2, len(t.ops) - 1, 2):
                    if _wrap(t.ops[k], w) == _wrap(c, w): dst = t.ops[k + 1]['bb']
                take = [dst]
            else:
                w = width(self.ty(f, t.ops[0]) or '') or 64; to = {}
                for k in range(2, len(t.ops) - 1, 2):
                    v = _sg(t.ops[k], w)
                    if isinstance(c, Ok) and v < c.lo: to.setdefault(t.ops[k + 1]['bb'], [])
                    else: to.setdefault(t.ops[k + 1]['bb'], []).append(v)
                dst = t.ops[1]['bb']
                take = [s for s in take if s == dst or to.get(s)]
                for s in take:
                    if s != dst and len(to[s]) == 1 and isinstance(t.ops[0], str): facts[s] = {int(t.ops[0][1:]): to[s][0]}
        live = self.live(f)
        for s in take:
            e2 = dict(env); e2.update(facts.get(s, {}))
            e2 = {k: v for k, v in e2.items() if k in live[s]}
            work.append((s, 0, bb, e2, frozenset(k for k in tn if k in live[s]), en, dict(mem), ev))

    def cell(self, f, o):
        d = f.defn(o)
        return repr(d.x) if d is not None and d.op == 'gep' else repr(o)

    _live = {}
    def live(self, f):
        """SSA values live on entry of each block (phi operands included)."""
        if f in Walk._live: return Walk._live[f]
        def use(o, out):
            if isinstance(o, str) and o[:1] == '%': out.add(int(o[1:]))
            elif isinstance(o, dict):
                for v in o.values(): use(v, out)
            elif isinstance(o, list):
                for v in o: use(v, out)
        gen = []; kill = []
        for b in f.blocks:
            g = set(); k = set()
            for i in b:
                u = set(); use(i.ops, u)
                if isinstance(i.x, dict): use(i.x, u)
                g |= u - k if i.op != 'phi' else u
                k.add(i.id)
            gen.append(g); kill.append(k)
        live = [set(g) for g in gen]; ch = True
        while ch:
            ch = False
            for b in range(len(f.blocks) - 1, -1, -1):
                out = set()
                for s in f.succs(b): out |= live[s]
                n = gen[b] | (out - kill[b])
                if n != live[b]: live[b] = n; ch = True
        Walk._live[f] = live
        return live

    def arg(self, f, i, k, v):
        c = i.callee
        g = self.p.funcs.get(c) if c else None
        if g is not None and not g.decl and not g.vararg and self.depth > 0 and k < len(g.params) and isinstance(v, int):
            w = Walk(self.p, depth=self.depth - 1); w.nested = True
            try:
                w.run(g, None, None, False, sink=self.sink, params=({k: v}, [k]))
            except RuntimeError:
                self.sink('argument', i)
            return
        self.sink('argument:%d' % k, i)

    def context(self, f, start):
        """what the conditions that guard the starting point say about single values"""
        env = {}; b = start.bb; idom = f.dominators()
        while b in idom and idom[b] != b:
            q = idom[b]; t = f.term(q)
            if f.preds[b] == [q] and t.op == 'br' and len(t.ops) == 3:
                s = t.succ()
                d = f.defn(t.ops[0])
                if s[0] != s[1] and d is not None and d.op == 'icmp' and isinstance(d.ops[0], str) and isinstance(d.ops[1], int):
                    x = f.defn(d.ops[0]); c = _sg(d.ops[1], width(self.ty(f, d.ops[0]) or '') or 64)
                    pol = s[0] == b; lo = None
                    if d.x == 'sgt' and pol: lo = c + 1
                    elif d.x == 'sge' and pol or d.x == 'slt' and not pol: lo = c
                    elif d.x == 'sle' and not pol: lo = c + 1
                    if x is not None:
                        if lo is not None: env.setdefault(x.id, Ok(x.id, lo))
                        elif d.x in ('eq', 'ne') and (d.x == 'eq') == pol: env.setdefault(x.id, c)
            b = q
        return env

    def refine(self, f, c, pol, env, get):
        """facts about SSA values when condition c has truth value pol"""
        out = {}
        d = f.defn(c)
        if d is None: return out
        out[d.id] = pol
        if d.op == 'icmp' and d.x in ('eq', 'ne') and ((d.x == 'eq') == bool(pol)):
            a, b = d.ops
            for x, y in ((a, b), (b, a)):
                vy = get(y)
                if isinstance(x, str) and x[:1] == '%' and isinstance(vy, int) and isinstance(get(x), Ok): out[int(x[1:])] = vy
        elif d.op == 'xor' and 1 in d.ops or d.op == 'xor' and True in d.ops:
            x = [o for o in d.ops if isinstance(o, str)]
            if x: out.update(self.refine(f, x[0], 1 - pol, env, get))
        elif (d.op == 'and' and pol) or (d.op == 'or' and not pol):
            for o in d.ops:
                if isinstance(o, str): out.update(self.refine(f, o, pol, env, get))
        elif d.op == 'select':
            c0, x, y = d.ops
            if pol and y == 0:
                for o in (c0, x):
                    if isinstance(o, str): out.update(self.refine(f, o, 1, env, get))
            if not pol and x in (1, True):
                for o in (c0, y):
                    if isinstance(o, str): out.update(self.refine(f, o, 0, env, get))
        return out

    def ev(self, f, i, get):
        op = i.op; o = i.ops
        if op == 'icmp':
            a, b = get(o[0]), get(o[1])
            if a in (STALE, SCMP) or b in (STALE, SCMP): return SCMP
            if isinstance(b, Ok) and not isinstance(a, Ok):
                a, b = b, a
                p = {'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge', 'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}.get(i.x, i.x)
            else: p = i.x
            if isinstance(a, Ok):
                if not isinstance(b, int): return UNK
                w = width(self.ty(f, o[0]) or '') or width(self.ty(f, o[1]) or '') or 64
                b = _sg(b, w)
                if b < a.lo: return {'eq': 0, 'ne': 1, 'slt': 0, 'sle': 0, 'sgt': 1, 'sge': 1}.get(p, UNK)
                if b == a.lo: return {'slt': 0, 'sge': 1}.get(p, UNK)
                return UNK
            if not isinstance(a, int) or not isinstance(b, int): return UNK
            w = width(self.ty(f, o[0]) or '') or width(self.ty(f, o[1]) or '') or 64
            if p in ('eq', 'ne'): return int((_wrap(a, w) == _wrap(b, w)) == (p == 'eq'))
            fn = _sg if p[0] == 's' else _wrap
            a, b = fn(a, w), fn(b, w)
            return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p[1:]])
        if op == 'select':
            c = get(o[0]); x, y = get(o[1]), get(o[2])
            if isinstance(c, int): return x if c & 1 else y
            if x == y and x != UNK: return x
            return SCMP if SCMP in (c, x, y) else STALE if STALE in (x, y) else UNK
        if op in ('and', 'or'):
            a, b = get(o[0]), get(o[1])
            if op == 'and' and (a == 0 or b == 0): return 0
            if op == 'or' and i.ty == 'i1' and (a in (1, True) or b in (1, True)): return 1
            if SCMP in (a, b): return SCMP
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = get(o[0]), get(o[1])
            if not isinstance(a, int) or not isinstance(b, int):
                return SCMP if SCMP in (a, b) else UNK
            w = width(i.ty) or 64
            if op in ('shl', 'lshr', 'ashr') and not 0 <= b < w: return UNK
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: _wrap(a, w) >> b, 'ashr': lambda: _sg(a, w) >> b}[op]()
            return _sg(r, w) if w > 1 else r & 1
        if op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            a = get(o[0])
            if isinstance(a, Ok): return a if op != 'trunc' else a
            if a in (STALE, SCMP): return a
            if not isinstance(a, int): return UNK
            w0 = width(self.ty(f, o[0]) or '') or 64; w = width(i.ty) or 64
            if op == 'zext': return _wrap(a, w0)
            if op == 'sext': return _sg(a, w0) if w0 > 1 else -(a & 1)
            if op == 'trunc': return _sg(a, w) if w > 1 else a & 1
            return a
        if op == 'gep':
            a = get(o[0])
            return UNK
        return UNK
