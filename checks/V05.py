#!/usr/bin/env python3
"""V05: indexed access by built-in operations stays inside the object."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, bounds
from ineq import add, scale, const

KEEP = ('oop_num_fields', 'index_oop_spec', 'index_oop_put_spec', 'is_a_kind_of', 'new_instance_with', 'instantiate_with',
        'cobject_value', 'cobject_index_check', 'cobject_num_bytes')
SHAPES = {'_gst_array_class': 3, '_gst_string_class': 0, '_gst_symbol_class': 0, '_gst_byte_array_class': 0}
# calls that access (pointer, length) pairs
RANGES = {'memcpy': ((0, 2), (1, 2)), 'memmove': ((0, 2), (1, 2)), 'memset': ((0, 2),), 'memcmp': ((0, 2), (1, 2)), 'memchr': ((0, 2),),
          'llvm.memcpy': ((0, 2), (1, 2)), 'llvm.memmove': ((0, 2), (1, 2)), 'llvm.memset': ((0, 2),),
          '_gst_read': ((1, 2),), '_gst_write': ((1, 2),), '_gst_recv': ((1, 2),), '_gst_send': ((1, 2),), 'pread': ((1, 2),), 'pwrite': ((1, 2),),
          'pread64': ((1, 2),), 'pwrite64': ((1, 2),), 'read': ((1, 2),), 'write': ((1, 2),), '_gst_grey_oop_range': ((0, 1),)}


# between objects and C values
CONVERSIONS = ('_gst_to_cstring', '_gst_to_wide_cstring', '_gst_to_byte_array', '_gst_set_oop_bytes', 'index_oop', 'index_oop_put',
               'inst_var_at', 'inst_var_at_put', '_gst_string_new', '_gst_counted_string_new', '_gst_byte_array_new', '_gst_unicode_string_new')


COUNTS = {'instantiate_with': 1, 'new_instance_with': 1, 'xmalloc': 0}


# with calls that cannot write told from those that can
AFTER = 'inferattrs,cgscc(function-attrs),function(gvn<no-pre;no-load-pre>,simplifycfg)'


class Access(bounds.Bounds):
    bodyparams = {('index_oop_spec', 1): 0, ('index_oop_put_spec', 1): 0}
    specparams = {('index_oop_spec', 3): 0, ('index_oop_put_spec', 4): 0}

    def known(self, b, f, o, F, env):
        """the number of arguments of a message is a byte"""
        if f.base == 'cobject_index_check' and o in ('%1', '%2'): return self.atom(F, ('v', int(o[1:])), -bounds.W62 if o == '%1' else 1, bounds.W62 - 1)
        if f.base in CONVERSIONS and f.base.endswith('_new') and f.param(o) is not None and f.params[f.param(o)] == 'i64': return self.atom(F, ('v', int(o[1:])), 0, bounds.TAIL)
        if o == '%1' and f.base.startswith('VMpr_'): return self.atom(F, ('v', 1), 0, 255)

    def kclass(self, F, o):
        k = bounds.Bounds.kclass(self, F, o)
        # only called with strings of wide characters
        if self.cur == '_gst_to_wide_cstring': self.atom(F, k, 2, 2)
        return k

    cur = None

    # ---- C objects: [LO, HI) is what may be accessed, relative to cobject_value
    def extent(self, F, o):
        lo, hi = ('LO', o), ('HI', o)
        return ({lo: 1}, 0), ({hi: 1}, 0)

    def predicate(self, f, d, truth, F, env):
        if d.callee.split('.')[0] == 'cobject_index_check' and truth:
            lo, hi = self.extent(F, self.okey(f, d.ops[0], env))
            at, n = self.val(f, d.ops[1], F, env), self.val(f, d.ops[2], F, env)
            # a check for no bytes at all says nothing
            if F.within(at, -bounds.W62, bounds.W62 - 1) and F.within(n, 1, bounds.W62 - 1): F.put(add(at, lo, -1)); F.put(add(add(hi, at, -1), n, -1))

    def call(self, f, i, F, env):
        g = (i.callee or '').split('.')[0]
        if g == '_gst_c_type_size':
            t = self.typesizes(self.p.get(g)); o = self.uncast(f, i.ops[0]); d = f.defn(o)
            while d is not None and d.op == 'trunc' and F.within(self.val(f, d.ops[0], F, env), -(1 << 31), (1 << 31) - 1): o = self.uncast(f, d.ops[0]); d = f.defn(o)
            cs = F.sets.get(o)
            sz = {t.get(c, t[None]) for c in cs} if cs else set(t.values())
            return self.opaque(f, i.id, F, i.ty, min(sz), max(sz))
        if g in ('strlen', 'wcslen', '_gst_buffer_size'): return self.opaque(f, i.id, F, i.ty, 0, bounds.TAIL)
        if g == 'strnlen':
            a, b = f.defn(i.ops[0]), f.defn(i.ops[1])
            r = self.opaque(f, i.id, F, i.ty, 0)
            if a is not None and b is not None and (a.callee or '').split('.')[0] == 'cobject_value' and (b.callee or '').split('.')[0] == 'cobject_num_bytes':
                o = self.okey(f, a.ops[0], env)
                if o == self.okey(f, b.ops[0], env):
                    lo, hi = self.extent(F, o)
                    F.put(scale(lo, -1)); F.put(add(hi, r, -1))
            self.atom(F, ('v', i.id), None, bounds.TAIL)       # it stops at the end of memory
            return r
        return bounds.Bounds.call(self, f, i, F, env)

    def typesizes(self, g):
        """type -> size, as _gst_c_type_size has it"""
        if not hasattr(self, '_sizes'):
            t = {}
            for b in g.blocks:
                x = b[-1]
                if x.op != 'switch': continue
                def result(bb, o=None, frm=None):
                    for _ in range(4):
                        y = g.blocks[bb][-1]; ph = [i for i in g.blocks[bb] if i.op == 'phi']
                        if y.op == 'ret':
                            v = y.ops[0]
                            for i in ph:
                                if v == '%%%d' % i.id: v = i.ops[i.x.index(frm)]
                            return v if isinstance(v, int) else None
                        if y.op != 'br' or len(y.ops) != 1: return None
                        frm, bb = bb, y.ops[0]['bb']
                t[None] = result(x.ops[1]['bb'], frm=b[0].bb)
                for k in range(2, len(x.ops) - 1, 2): t[x.ops[k]] = result(x.ops[k + 1]['bb'], frm=b[0].bb)
            if not t or None in t.values(): raise vp.AnalysisBroken('_gst_c_type_size is not a table of sizes any more')
            self._sizes = t
        return self._sizes

    def ptr(self, f, o, F, env):
        """pointer -> (root, linear offset)"""
        off = const(0)
        for _ in range(20):
            if env and isinstance(o, str) and o[0] == '%' and int(o[1:]) in env: o = env[int(o[1:])]; continue
            if isinstance(o, dict) and o.get('ce') == 'gep':
                off = add(off, const(o['gep']['o']))
                for v, sc in o['gep']['v']: off = add(off, scale(self.val(f, v, F, env), sc))
                o = o['gep']['b']; continue
            d = f.defn(o)
            if d is None: break
            if d.op == 'gep':
                off = add(off, const(d.x['o']))
                for v, sc in d.x['v']: off = add(off, scale(self.val(f, v, F, env), sc))
                o = d.x['b']; continue
            if d.op in ('bitcast', 'freeze'): o = d.ops[0]; continue
            break
        ob = self.body_of(f, o, env)
        if ob is not None: return ('body', ob), off
        if isinstance(o, dict) and 'g' in o: return ('glob', o['g']), off
        d = f.defn(o)
        if d is not None and d.op == 'alloca': return ('alloca', d.id), off
        if d is not None and d.op == 'call' and (d.callee or '').split('.')[0] == 'cobject_value': return ('cobj', self.okey(f, d.ops[0], env)), off
        if d is not None and d.op == 'load' and d.ops[0] == {'g': '_gst_mem.ot'}: return ('ot',), off
        return ('other', d.op if d is not None else 'param' if f.param(o) is not None else str(o), o), off

    def accessed(self, f, o):
        return self.varies(f, o) or self.ptr(f, o, bounds.Facts(), None)[0][0] == 'cobj'

    def varies(self, f, o, n=0):
        """does the pointer have a variable offset from its root?"""
        d = f.defn(o)
        if isinstance(o, dict) and o.get('ce') == 'gep': return bool(o['gep']['v'])
        if d is None or n > 20: return False
        if d.op == 'gep': return bool(d.x['v']) or self.varies(f, d.x['b'], n + 1)
        if d.op in ('bitcast', 'freeze'): return self.varies(f, d.ops[0], n + 1)
        return False


SZ = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'float': 4, 'double': 8, 'fp80': 16}


def accesses(f, A):
    """(instruction, pointer, size or None, length operand or None)"""
    for i in f.instrs():
        if i.op == 'load' and A.accessed(f, i.ops[0]): yield i, i.ops[0], SZ.get(i.ty, 8), None
        elif i.op == 'store' and A.accessed(f, i.ops[1]):
            d = f.defn(i.ops[0]); k = f.param(i.ops[0])
            ty = d.ty if d is not None else f.params[k] if k is not None else None
            yield i, i.ops[1], SZ.get(ty, 1 if ty is None else 8), None
        elif i.op == 'call' and i.callee:
            g = i.callee
            g = '.'.join(g.split('.')[:2]) if g.startswith('llvm.') else g.split('.')[0]
            for p, n in RANGES.get(g, ()):
                if n < len(i.ops): yield i, i.ops[p], None, i.ops[n]


def goal_for(A, f, ptr, size, length, why):
    def goal(F, env):
        root, off = A.ptr(f, ptr, F, env)
        why['root'] = root
        n = const(size) if length is None else A.val(f, length, F, env)
        if length is not None and F.ge0(scale(n, -1)): return [n]       # nothing to access
        if root[0] == 'body':
            sz, fx, e = A.size(F, root[1])
            top = scale(sz, 8)
            strict = length is not None or size < 8
            if off == (top[0], top[1] - 8) and size == 8: return []        # the last word
            if strict: top = add(top, e, -1)
            why['goal'] = off, n, F
            lo = add(off, add(scale(fx, 8), const(16)) if strict else const(16), -1)
            return [n, lo, add(add(top, off, -1), n, -1)]
        if root[0] == 'cobj':
            lo, hi = A.extent(F, root[1])
            if length is not None and F.ge0(scale(n, -1)): return [n]
            why['goal'] = off, n, F
            return [n, add(off, lo, -1), add(add(hi, off, -1), n, -1)]
        if root[0] == 'glob':
            g = A.p.globals.get(root[1]); z = g and g.get('size')
            if not z: return None
            return [off, n, add(add(const(z), off, -1), n, -1)]
        if root[0] == 'alloca':
            d = f.ins[root[1]]
            cnt = A.val(f, d.ops[0], F, env) if d.ops else const(1)
            why['goal'] = off, n, F
            return [off, n, add(add(scale(cnt, d.x[1]), off, -1), n, -1)]
        why['goal'] = off, n, F
        d = f.defn(root[2]) if root[0] == 'other' else None
        if d is not None and d.op == 'call' and d.callee:
            g = d.callee.split('.')[0]
            if g in ('xmalloc', 'malloc', 'xcalloc', 'calloc'):
                cap = A.val(f, d.ops[-1], F, env)
                return [off, n, cap, add(add(cap, off, -1), n, -1)]
            if g == 'new_instance_with' and A.classof(f, d.ops[0], env) in SHAPES:
                cap = add(scale(A.val(f, d.ops[1], F, env), 1 << SHAPES[A.classof(f, d.ops[0], env)]), const(16))
                return [add(off, const(16), -1), n, add(add(cap, off, -1), n, -1)]
        if root[0] == 'other' and (d is None or d.op != 'phi'): return [n]       # a C pointer: what it points to is its owner's business
        return None
    return goal


def system(f, k):
    """does the object hang off a variable of the VM?"""
    while k[0] == 'field': k = k[1]
    d = f.defn(k[1])
    return d is not None and d.op == 'load' and isinstance(d.ops[0], dict) and 'g' in d.ops[0] and d.ops[0]['g'] not in ('_gst_sp', '_gst_self')


def contracts(A, r):
    """the helpers that the analysis knows by name return what it takes them to return"""
    def one(name, what, goal):
        f = (A.p.by_base(name) or [None])[0]
        if f is None: raise vp.AnalysisBroken('%s: no such function' % name)
        for b in f.rpo():
            t = f.term(b)
            if t.op != 'ret': continue
            A.budget = 300
            ok = A.prove(f, b, lambda F, env: goal(f, A.resolve(f, t.ops[0], env), F, env))
            r.count('contracts'); r.ob(ok)
            if not ok: r.violation(name, t.loc(), '%s: %s' % (name, what))

    def storage(f, F, env):
        """offset and object that the C object in the first parameter points into; None: it holds an address"""
        ofs = nil = st = None
        for i in f.instrs():
            if i.op != 'load': continue
            if i.ty == 'i64' and A.ptr(f, i.ops[0], F, env)[0] == ('body', ('oop', '%0')):
                off = A.ptr(f, i.ops[0], F, env)[1]; sz = A.size(F, ('oop', '%0'))[0]
                if off == (scale(sz, 8)[0], -8): ofs = A.val(f, '%%%d' % i.id, F, env)
            if i.ops[0] == {'g': '_gst_nil_oop'}: nil = A.val(f, '%%%d' % i.id, F, env)
            if i.ty == 'ptr' and A.okey(f, '%%%d' % i.id, env) == ('field', ('oop', '%0'), 24): st = A.val(f, '%%%d' % i.id, F, env)
        if st is not None and nil is not None and F.ge0(add(st, nil, -1)) and F.ge0(add(nil, st, -1)): return None
        return ofs, ('field', ('oop', '%0'), 24)

    def room(F, o):
        sz, fx, e = A.size(F, o)
        return add(add(scale(sz, 8), const(-16)), e, -1)

    def checked(f, o, F, env):
        if o == 0: return []
        G = bounds.Facts(F); A.cond(f, o, True, G, env); F.cons, F.iv, F.seen, F.dead = G.cons, G.iv, G.seen, G.dead
        F.wraps = G.wraps; F.cache = {}; A.unwrap(F); F.cache = {}
        s = storage(f, F, env)
        if s is None: return []
        if s[0] is None: return None
        at = add(s[0], ({('v', 1): 1}, 0)); n = ({('v', 2): 1}, 0)
        return [at, add(add(room(F, s[1]), at, -1), n, -1)]

    def left(f, o, F, env):
        s = storage(f, F, env)
        if s is None or o == 0: return []
        if s[0] is None: return None
        n = A.val(f, o, F, env)
        return [n, s[0], add(add(room(F, s[1]), s[0], -1), n, -1)]

    def address(f, o, F, env):
        s = storage(f, F, env); d = f.defn(o)
        if s is None: return []
        root, off = A.ptr(f, o, F, env)
        if root != ('body', s[1]) or s[0] is None: return None
        x = add(add(off, s[0], -1), const(16), -1)
        return [x, scale(x, -1)]

    def fields(f, o, F, env):
        n = A.val(f, o, F, env); ob = ('oop', '%0'); sz, fx, e = A.size(F, ob)
        # objects that are not made of bytes have elements of one word
        for i in f.instrs():
            if i.op == 'and' and i.ops[1] == 15 and A.empty(f, i.ops[0], F, env) is not None:
                v = A.val(f, '%%%d' % i.id, F, env)
                if F.ge0(scale(v, -1)): F.put(scale(e, -1)); k = A.kclass(F, ob); A.atom(F, k, 3, 3)
        x = add(n, fx, -1); t = A.times(F, x, A.kclass(F, ob))
        if t is None: return None
        return [x, add(add(room(F, ob), scale(fx, 8), -1), t, -1)]

    one('cobject_index_check', 'lets an access outside the storage of a C object through', checked)
    one('cobject_num_bytes', 'counts bytes outside the storage of a C object', left)
    one('cobject_value', 'is not the address of the data of a C object', address)
    one('oop_num_fields', 'counts fields that are not there', fields)


def check(r):
    p = cfront.load_vm(passes=cfront.PASSES + ',' + AFTER, inline=(120, KEEP))
    A = Access(p, SHAPES); A.hook = A.known
    tab = cfront.prim_table(p)
    fns = sorted(set(e['func'] for e in tab.values()))
    for b in KEEP[:3]: fns += [f.name for f in p.by_base(b)][:1]
    # what C code gets at objects with
    fns += sorted(f.name for f in p.funcs.values() if not f.decl and f.name not in fns and
                  (f.base in CONVERSIONS or f.file == 'callin.c'))
    contracts(A, r)
    for fn in fns:
        f = p.get(fn); reach = set(f.rpo()); A.cur = f.base
        for i, ptr, size, length in accesses(f, A):
            if i.bb not in reach: continue
            F = bounds.Facts()
            root, off = A.ptr(f, ptr, F, None)
            if f.file == 'callin.c' and root[0] != 'body': r.count('other_pointers'); continue
            if root[0] == 'other' and not length: r.count('other_pointers'); continue
            if length is not None and isinstance(length, int) and not A.varies(f, ptr): continue
            if root[0] == 'body' and root[1][0] == 'field' and system(f, root[1]): r.count('system_lists'); continue
            why = {}
            A.budget = 300
            ok = A.prove(f, i.bb, goal_for(A, f, ptr, size, length, why))
            r.count('accesses')
            r.ob(ok)
            if not ok:
                r.violation('%s:%s' % (f.base, where(A, root, i)), i.loc(), '%s accesses %s: not shown to be inside, on some path to it' % (f.base, DESC.get(root[0], 'memory')))
        # sizes of what is allocated
        for i in f.instrs():
            if i.bb not in reach or i.op != 'call' or not i.callee: continue
            g = i.callee.split('.')[0]
            if g not in COUNTS: continue
            o = i.ops[COUNTS[g]]
            def goal(F, env):
                n = A.val(f, o, F, env)
                k = 0 if g == 'xmalloc' else SHAPES.get(A.classof(f, i.ops[0], env), 3)
                return [n, add(const(1 << (62 - k)), n, -1)]
            if f.param(A.uncast(f, o)) is not None and f.file == 'callin.c' or gathered(f, o): continue
            A.budget = 300
            ok = A.prove(f, i.bb, goal)
            r.count('allocations'); r.ob(ok)
            if not ok: r.violation('%s:%s' % (f.base, g), i.loc(), '%s passes %s a number of elements not shown to be between zero and what fits' % (f.base, g))


DESC = {'body': 'the elements of an object', 'glob': 'a table', 'alloca': 'a local array', 'cobj': 'the storage of a C object'}


def gathered(f, o):
    """the distance between two pointers"""
    d = f.defn(o)
    while d is not None and d.op in ('ashr', 'sdiv', 'trunc', 'sext', 'lshr'): d = f.defn(d.ops[0])
    return d is not None and d.op == 'sub' and all(f.defn(x) is not None and f.defn(x).op == 'ptrtoint' for x in d.ops)


def where(A, root, i): return '%s.%s' % (root[0], i.op if i.op != 'call' else (i.callee or '').split('.')[0])


if __name__ == '__main__':
    vp.main('V05', check, explanation="""
The functions behind the primitives (with their helpers inlined), the C calls of callin.c and the conversions between objects and
C values are compiled to LLVM's intermediate form.  Every access to the elements of an object, to a table or to a local array at a
computed position, every transfer of (address, length) to or from one of those or the storage of a C object, and every number of
elements passed to an allocator is an obligation: from the comparisons on the way to it, position and length must follow to stay
inside.  Arithmetic counts only after it has been shown not to wrap around.  The facts are linear relations over the values of the
function and over the size, the number of named instance variables and the element size of objects (abstract interpretation with
convex polyhedra; the ways into a join are tried one by one).  The helpers the rules know by name (oop_num_fields,
cobject_index_check, cobject_num_bytes, cobject_value) have contracts that are checked in the same way.""",
            trusted=['an object has as many words as its size field says, two for the header and at least as many as its class has named instance variables',
                     'instance variables of classes number less than 2^30; an object is smaller than 2^57 words',
                     'numArgs of a message is a byte', 'the type of an object is the one the function checked (V14 decides that)',
                     'C pointers that a program hands in point to as much as it says',
                     'objects reached through variables of the VM itself (scheduler lists, symbol table) are well formed'])
