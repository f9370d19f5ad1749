"""Memory that a call-out obtains for its arguments (cint.c): each argument that
was converted into a fresh block is released when the call is over, whatever
happened, and nothing else is.

1. What converting an argument of each declared type leaves behind: walk the
   converter with the type fixed.
2. Walk the function that makes the call, with every type declared for its
   arguments and each of those outcomes (or a refusal), and count releases.
"""
import os, re
from cfront import AnalysisBroken
from absrun import AbsRun, Model

FRESH = {'_gst_to_cstring', '_gst_to_byte_array', '_gst_to_wide_cstring', 'xmalloc', 'malloc', 'xcalloc', 'calloc', 'xstrdup', 'strdup'}
FREE = {'xfree', 'free'}
NTYPES = 32
SZ, OFF_OOP, OFF_TYPE = None, None, None


def layout(p, f):
    """size of a cparam and the offsets of its object and type, from the accesses"""
    sz = oop = ty = None
    for g in p.funcs.values():
        if g.decl: continue
        for i in g.instrs():
            if i.op == 'gep' and i.x['t'] == 'struct.cparam' and i.x['v']: sz = i.x['v'][0][1]
            if i.op in ('load', 'store') and isinstance(i.x, list) and i.x and i.x[0] == 'cparam':
                if i.x[1] == 'any pointer': oop = i.x[2]
                elif i.x[1] not in ('omnipotent char', 'long', 'double'): ty = i.x[2]
    if not sz or oop is None: raise AnalysisBroken('layout of cparam not recognised')
    if ty is None or ty == oop: ty = oop + 8
    return sz, oop, ty


class Conv(Model):
    def __init__(self, base, p, follow):
        self.b = base; self.p = p; self.follow = follow; self.outs = set()

    def call(self, f, i, args, mem, st):
        c = base(i.callee)
        if c in FRESH: return [(('p', 'fresh', 0), mem, st)]
        if c == 'memset' or (i.callee or '').startswith('llvm.memset'):
            a = args[0]
            if isinstance(a, tuple): mem = {k: v for k, v in mem.items() if k[0] != a[1]}; mem[(a[1], 'zero')] = 1
            return [(None, mem, st)]
        if c in FREE and args and isinstance(args[0], tuple) and args[0][1] == 'fresh': return [(None, mem, st - 1)]
        if c in self.follow: return 'follow'
        return None


def base(n):
    return (n or '').split('.')[0]


def outcomes(p, fn, oopoff, tyoff):
    """type -> {(fresh blocks, object recorded, recorded type, accepted)}"""
    f = p.get(fn)
    if len(f.params) != 3: raise AnalysisBroken('parameters of ' + fn)
    res = {}
    follow = {base(i.callee) for g in [f] for i in g.calls() if i.callee and not p.funcs.get(i.callee, f).decl
              and any(x.callee and base(x.callee) in FRESH for x in p.get(i.callee).calls()) and base(i.callee) not in FRESH} if True else set()
    for c in range(NTYPES):
        m = Conv(c, p, follow); m.outs = set()
        run = AbsRun(p, m)
        args = [('p', 'theoop', 0), ('p', 'cp', 0), c]
        outs = set()
        for ret, mem, st in run.run(fn, args, (), 0):
            d = dict(mem)
            held = sum(1 for k, v in d.items() if k[0] == 'cp' and v == ('p', 'fresh', 0))
            rec = 1 if isinstance(d.get(('cp', oopoff)), tuple) else 0
            t = d.get(('cp', tyoff))
            outs.add((held, rec, t if isinstance(t, int) else c, 0 if ret == 0 else 1))
        res[c] = outs
    return res


class Call(Model):
    def __init__(self, p, c, outs, lay, idx, arr, pushers, follow):
        self.p = p; self.c = c; self.outs = outs; self.sz, self.oo, self.to = lay; self.idx = idx; self.arr = arr
        self.push = pushers; self.follow = follow; self.bad = set(); self.pushed = 0

    # the declared type: the integer found in the descriptor's array
    def value(self, f, i, env):
        if i.op in ('and', 'ashr') and i.ops[1] == 1:
            d = f.defn(i.ops[0])
            if d is not None and d.op == 'ptrtoint':
                l = f.defn(d.ops[0])
                if l is not None and l.op == 'load' and isinstance(l.x, list) and l.x[:2] == ['any pointer', 'any pointer']:
                    return (1 if i.op == 'and' else self.c,)
        return None

    # state, per argument: (fresh block, object recorded, type recorded, released)
    def load(self, f, i, addr, mem, st):
        if isinstance(i.x, list) and i.x and i.x[0] == 'cfunc_cif_cache':
            return (mem.get(('cur', i.x[2])),)
        b = mem.get(('cur', self.arr))
        if isinstance(addr, tuple) and b is not None and addr[1] == b[1]:
            k, off = divmod(addr[2] - b[2], self.sz)
            if 0 <= k < len(st):
                if off == self.oo: return (('p', 'argoop', 0) if st[k][1] else 0,)
                if off == self.to: return (st[k][2],)
                if off == 0: return (('p', ('block', k), 0),)
        return None

    def store(self, f, i, addr, v, mem, st):
        if isinstance(i.x, list) and i.x and i.x[0] == 'cfunc_cif_cache':
            m = dict(mem); m.pop(('cur', i.x[2]), None)
            if v is not None: m[('cur', i.x[2])] = v
            return m, st
        return None

    def call(self, f, i, args, mem, st):
        c = base(i.callee)
        if c in self.push:
            self.pushed += 1
            out = [(0, mem, st)]
            for held, rec, t, acc in sorted(self.outs(args[-1])):
                if not acc: continue
                m = dict(mem); m[('cur', self.idx)] = len(st) + 1
                out.append((1, m, st + ((held, rec, t, 0),)))
            return out
        if c in FREE:
            a = args[0] if args else None
            if isinstance(a, tuple) and isinstance(a[1], tuple) and a[1][0] == 'block':
                k = a[1][1]; x = st[k]
                if x[3]: self.bad.add(('twice', i.line, x[2]))
                elif not x[0]: self.bad.add(('foreign', i.line, x[2]))
                return [(None, mem, st[:k] + ((x[0], x[1], x[2], 1),) + st[k + 1:])]
            return None
        if c in self.follow: return 'follow'
        return None


def names(repo):
    src = re.sub(r'/\*.*?\*/', '', open(os.path.join(repo, 'libgst/cint.h')).read(), flags=re.S)
    m = re.search(r'enum\s+\w*\s*\{([^}]*\bCDATA_CHAR\b[^}]*)\}', src)
    return {k: e.strip()[6:].lower() for k, e in enumerate(m.group(1).split(','))} if m else {}


def reaching(p, f, names):
    """callees of f (not f itself) from which one of names is called"""
    cg = {base(g.name): {base(i.callee) for i in g.calls() if i.callee} for g in p.funcs.values() if not g.decl}
    out = set(); ch = True
    hit = set(names)
    while ch:
        ch = False
        for g, cs in cg.items():
            if g not in hit and cs & hit: hit.add(g); ch = True
    return {c for c in cg.get(base(f.name), ()) if c in hit and c not in names and c in cg}


def check(r, p, types):
    """types: number -> name"""
    conv = [g for g in p.funcs.values() if not g.decl and base(g.name) == 'smalltalk_to_c']
    pushers = [g for g in p.funcs.values() if not g.decl and conv and any(i.callee == conv[0].name for i in g.calls())
               and any(i.op == 'store' and isinstance(i.x, list) and i.x and i.x[0] == 'cfunc_cif_cache' and i.x[1] == 'int' for i in g.instrs())]
    names = {base(g.name) for g in pushers}
    tops = [g for g in p.funcs.values() if not g.decl and base(g.name) not in names and any(base(i.callee) in names for i in g.calls())]
    if len(conv) != 1 or len(conv[0].params) != 3 or len(pushers) != 1 or len(tops) != 1: return False
    conv, push, top = conv[0], pushers[0], tops[0]
    lay = layout(p, conv)
    idx = [i.x[2] for i in push.instrs() if i.op == 'store' and isinstance(i.x, list) and i.x and i.x[0] == 'cfunc_cif_cache' and i.x[1] == 'int']
    arr = [i.x[2] for i in top.instrs() if i.op == 'store' and isinstance(i.x, list) and i.x and i.x[0] == 'cfunc_cif_cache' and i.x[1] == 'any pointer'
           and any(j.op == 'load' and j.x == i.x and any(k.op == 'gep' and k.x['t'] == 'struct.cparam' and k.x['b'] == '%%%d' % j.id for k in push.instrs()) for j in push.instrs())]
    if len(set(idx)) != 1 or len(set(arr)) != 1: return False
    outs = outcomes(p, conv.name, lay[1], lay[2])
    for c, os in sorted(outs.items()):
        for held, rec, t, acc in sorted(os):
            r.count('conversion_outcomes')
            ok = held in (0, 1) and (not held or (rec and acc))
            if not ok:
                r.violation('cparam:%s:%d%d%d' % (types.get(c, c), held, rec, acc), '%s:%d' % (conv.file, conv.line),
                            '%s can leave %d block(s) of memory for an argument of type %s %s' % (base(conv.name), held, types.get(c, c), 'that it refuses' if not acc else 'without recording the object, which is what releases them'))
            r.ob(ok)
    # conversions that a variadic argument goes through
    m13 = {20: 13, 21: 9}
    follow = reaching(p, top, FREE | names) - names - FREE - {'_gst_inc_grow_registry'}
    for c in sorted(outs):
        m = Call(p, c, lambda t: outs.get(m13.get(t, t), set()), lay, idx[0], arr[0], names, follow)
        run = AbsRun(p, m, limit=200000)
        leaks = set()
        for ret, mem, st in run.run(top.name, [None] * len(top.params), (), ()):
            for held, rec, t, rel in st:
                if held and not rel: leaks.add((t, 'refused' if ret == 0 else 'made'))
        if not m.pushed and c not in (19,): continue
        r.count('call_out_types'); r.count('paths_followed', run.steps)
        for t, how in sorted(leaks, key=str):
            r.violation('cparam:leak:%s:%s' % (types.get(c, c), how), '%s:%d' % (top.file, top.line),
                        '%s can return without releasing the memory of an argument declared %s%s' % (base(top.name), types.get(c, c), ' when the call is not made' if how == 'refused' else ''))
        for kind, line, t in sorted(m.bad, key=str):
            r.violation('cparam:%s:%s' % (kind, types.get(c, c)), '%s:%d' % (top.file, line),
                        '%s releases %s an argument declared %s' % (base(top.name), 'twice the memory of' if kind == 'twice' else 'something that was not obtained for', types.get(c, c)))
        r.ob(not leaks and not m.bad)
    return True
