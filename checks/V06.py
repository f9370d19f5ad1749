#!/usr/bin/env python3
"""V06: small integers and character codes never wrap silently."""
import os, sys
from fractions import Fraction as Q
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, cfront, bounds, bytedom
from bounds import W62, width, Facts
from ineq import add, scale, const
import V05

LO, HI = -W62, W62 - 1
FIRST = -259             # index of the first character in the object table
# ------------------------------------------------------------------ floating point
BITS = {'float': 24, 'double': 53, 'fp80': 64}


def fconst(o):
    if not isinstance(o, dict) or 'fp' not in o: return None
    if o.get('x80'):
        h = int(o['x80'], 16); e = (h >> 64) & 0x7fff; m = h & ((1 << 64) - 1)
        if e == 0x7fff: return None
        v = Q(m) * Q(2) ** (e - 16383 - 63)
        return -v if h >> 79 else v
    try: return Q(float(o['fp']))
    except (ValueError, OverflowError): return None


def spacing(c, p, down):
    """distance from c to the next number of precision p, towards minus infinity if down"""
    a = abs(c)
    if a == 0: return Q(0)
    e = 0
    while Q(2) ** e > a: e -= 1
    while Q(2) ** (e + 1) <= a: e += 1
    if a == Q(2) ** e and (c > 0) == down: e -= 1       # towards zero from a power of two
    return Q(2) ** (e + 1 - p)


def atomic(f, o, truth, n=0):
    """comparisons that hold when the boolean o is truth"""
    d = f.defn(o)
    if d is None or n > 10: return
    if d.op in ('zext', 'freeze'): yield from atomic(f, d.ops[0], truth, n + 1)
    elif d.op == 'xor' and d.ops[1] in (-1, 1): yield from atomic(f, d.ops[0], not truth, n + 1)
    elif d.op == 'and' and truth or d.op == 'or' and not truth:
        for x in d.ops: yield from atomic(f, x, truth, n + 1)
    elif d.op == 'select':
        if truth and d.ops[2] == 0:
            for x in d.ops[:2]: yield from atomic(f, x, True, n + 1)
        elif not truth and d.ops[1] in (1, -1):
            yield from atomic(f, d.ops[0], False, n + 1); yield from atomic(f, d.ops[2], False, n + 1)
    elif d.op == 'icmp' and d.ops[1] == 0 and d.x in ('eq', 'ne') and f.defn(d.ops[0]) is not None and f.defn(d.ops[0]).op in ('zext', 'fcmp', 'select'):
        yield from atomic(f, d.ops[0], truth == (d.x == 'ne'), n + 1)
    elif d.op == 'fcmp': yield d, truth


ROUND = {'floor': lambda x: x.__floor__(), 'ceil': lambda x: x.__ceil__(), 'trunc': lambda x: int(x),
         'rint': round, 'round': round, 'nearbyint': round, 'lrint': round, 'llrint': round, 'fabs': None}


def fname(g):
    g = g or ''
    if g.startswith('llvm.'): return g.split('.')[1]
    g = g.split('.')[0]
    return g[:-1] if g[:-1] in ROUND else g


class Ranges(V05.Access):
    TRANSPARENT = V05.Access.TRANSPARENT + ('sdiv', 'udiv', 'srem', 'urem')

    def known(self, b, f, o, F, env):
        # V05 shows that objects of other sizes are not asked for
        if f.base in ('_gst_alloc_obj', '_gst_alloc_words') and o == '%0': return self.atom(F, ('v', 0), 0, 1 << 60)
        return V05.Access.known(self, b, f, o, F, env)

    # -------------------------------------------------------- floating point
    def frange(self, f, o, b, depth=0):
        """[lo, hi] of a floating-point value (not a NaN) in block b"""
        c = fconst(o)
        if c is not None: return c, c
        d = f.defn(o)
        lo = hi = None
        if d is not None and depth < 8:
            if d.op in ('fpext', 'freeze', 'bitcast'): lo, hi = self.frange(f, d.ops[0], b, depth + 1)
            elif d.op == 'sitofp' or d.op == 'uitofp':
                F = self.at(f, b); lo, hi = F.rng(self.val(f, d.ops[0], F, None))
            elif d.op == 'call' and fname(d.callee) in ROUND and ROUND[fname(d.callee)]:
                x, y = self.frange(f, d.ops[0], b, depth + 1); r = ROUND[fname(d.callee)]
                lo = None if x is None else Q(r(x)); hi = None if y is None else Q(r(y))
            elif d.op == 'fneg':
                x, y = self.frange(f, d.ops[0], b, depth + 1); lo, hi = None if y is None else -y, None if x is None else -x
        for c, truth in self.fconds(f, b):
            p = c.x; a, k = c.ops
            if self.strip(f, k) == self.strip(f, o): a, k = k, a; p = p.translate(str.maketrans('gl', 'lg'))
            if self.strip(f, a) != self.strip(f, o): continue
            v = fconst(k)
            if v is None or p[0] == 'u' and truth or p[0] == 'o' and not truth: continue     # may be a NaN
            q = p[1:]
            if not truth: q = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}[q]
            t = f.defn(c.ops[0]) or f.defn(c.ops[1]); bits = BITS.get(t.ty, 64) if t is not None else 64
            if q == 'eq': lo = hi = v
            if q in ('gt', 'ge'):
                if q == 'gt': v += spacing(v, bits, False)
                lo = v if lo is None else max(lo, v)
            if q in ('lt', 'le'):
                if q == 'lt': v -= spacing(v, bits, True)
                hi = v if hi is None else min(hi, v)
        return lo, hi

    def strip(self, f, o):
        d = f.defn(o)
        while d is not None and d.op in ('fpext', 'freeze'): o = d.ops[0]; d = f.defn(o)
        return o if isinstance(o, str) else repr(o)

    def fconds(self, f, b):
        d = self.dom(f)
        while True:
            e = self.entries(f, b)
            if len(e) == 1:
                t = f.term(e[0])
                if t.op == 'br' and len(t.ops) == 3 and t.ops[1] != t.ops[2]: yield from atomic(f, t.ops[0], t.ops[2]['bb'] == b)
            n = d.get(b)
            if n is None or n == b: return
            b = n

    # -------------------------------------------------------- integers
    def val1(self, f, k, F, env, depth):
        if k < len(f.params): return V05.Access.val1(self, f, k, F, env, depth)
        i = f.ins[k]; op = i.op; w = width(i.ty) or 64
        V = lambda o: self.val(f, o, F, env, depth + 1)
        if depth < 40:
            if op in ('srem', 'sdiv') and not (isinstance(i.ops[1], int) and i.ops[1] > 0 and (op == 'srem' or F.ge0(V(i.ops[0])))):
                a, b = F.rng(V(i.ops[0])), F.rng(V(i.ops[1]))
                if None in a or None in b: return self.opaque(f, k, F, i.ty)
                ma, mb = max(-a[0], a[1]), max(-b[0], b[1], 1)
                if op == 'srem':
                    m = min(ma, mb - 1)
                    return self.opaque(f, k, F, i.ty, -m if a[0] < 0 else 0, m if a[1] > 0 else 0)
                if b[0] > 0 and a[0] >= 0:
                    # x / b = 1 + (x - b) / b, or less
                    h = F.rng(add(V(i.ops[0]), V(i.ops[1]), -1))[1]
                    return self.opaque(f, k, F, i.ty, 0, a[1] if h is None else min(a[1], 1 + max(0, h)))
                if b[0] > 0:
                    return self.opaque(f, k, F, i.ty, min(0, -(-a[0] // b[0])) if a[0] < 0 else 0, max(0, a[1] // b[0]))
                lo = -ma if not (a[0] >= 0 and b[0] >= 0 or a[1] <= 0 and b[1] <= 0) else 0
                return self.opaque(f, k, F, i.ty, lo, ma)
            if op == 'ashr' and not isinstance(i.ops[1], int):
                a = F.rng(V(i.ops[0]))
                if None not in a: return self.opaque(f, k, F, i.ty, min(a[0], 0), max(a[1], 0))
            if op == 'sub' and all(self.address(f, o) for o in i.ops): return self.opaque(f, k, F, i.ty, -(1 << 56), 1 << 56)
            if op in ('fptosi', 'fptoui'):
                lo, hi = self.frange(f, i.ops[0], i.bb)
                if lo is not None and hi is not None: return self.opaque(f, k, F, i.ty, int(lo), int(hi))
                return self.opaque(f, k, F, i.ty)
            if op == 'call' and fname(i.callee) in ('lrint', 'llrint', 'lround', 'llround'):
                lo, hi = self.frange(f, i.ops[0], i.bb)
                if lo is not None and hi is not None: return self.opaque(f, k, F, i.ty, round(lo), round(hi))
                return self.opaque(f, k, F, i.ty)
            if op == 'load' and i.ty == 'i32' and self.exponent(f, i): return self.opaque(f, k, F, i.ty, -(1 << 16), 1 << 16)
            if op == 'lshr' and isinstance(i.ops[1], int) and 0 < i.ops[1] < w and not F.ge0(V(i.ops[0])):
                return self.opaque(f, k, F, i.ty, 0, (1 << (w - i.ops[1])) - 1)
            if op == 'zext':
                d = f.defn(i.ops[0])
                if d is not None and d.op == 'trunc' and width(d.ty):
                    v = V(d.ops[0])
                    if F.within(v, 0, (1 << width(d.ty)) - 1): return v
        return V05.Access.val1(self, f, k, F, env, depth)

    def address(self, f, o):
        """addresses lie in one half of the address space"""
        d = f.defn(o)
        if isinstance(o, dict) and o.get('ce') == 'ptrtoint': return True
        return d is not None and d.op == 'ptrtoint'

    def load(self, f, i, F, env):
        r = V05.Access.load(self, f, i, F, env)
        tag = i.x if isinstance(i.x, list) else ['']
        if f.base in ('_gst_make_constant_oop', 'equal_constant') and i.ty == 'i64' and self.literal(f, i): return self.opaque(f, i.id, F, i.ty, LO, HI)
        if tag[0] in ('timespec', 'stat') and i.ty == 'i64' or self.struct(f, i) in ('struct.timespec',):
            return self.opaque(f, i.id, F, i.ty, -(1 << 61), 1 << 61)
        if self.measure(f, i):
            (a, _), = r[0].items() if len(r[0]) == 1 else ((None, None),)
            if a is not None: self.atom(F, a, -(1 << 56), 1 << 56)
        return r

    def exponent(self, f, i):
        """a variable that only frexp and its like store into, apart from small constants"""
        a = f.defn(i.ops[0])
        if a is None or a.op != 'alloca': return False
        me = '%%%d' % a.id; ok = False
        for x in f.instrs():
            if me not in x.ops: continue
            if x.op == 'call':
                g = fname(x.callee)
                if g in ('frexp', 'frexpl', 'frexpf', 'printf_frexp', 'printf_frexpl'): ok = True
                elif not (x.callee or '').startswith('llvm.'): return False
            elif x.op == 'store':
                if x.ops[0] == me: return False
                if isinstance(x.ops[0], int): continue
                d = f.defn(x.ops[0])
                if not (d is not None and d.op in ('add', 'sub') and isinstance(d.ops[1], int) and abs(d.ops[1]) < 4096 and f.defn(d.ops[0]) is not None and f.defn(d.ops[0]).op == 'load'): return False
            elif x.op != 'load': return False
        return ok

    def users(self, f, k):
        if self._users.get(None) != f.name:
            u = {None: f.name}
            for x in f.instrs():
                for o in x.ops:
                    if isinstance(o, str) and o[:1] == '%': u.setdefault(int(o[1:]), []).append(x)
            self._users = u
        return self._users.get(k, [])

    _users = {}

    def unsigned(self, f, d):
        """only used as an unsigned number"""
        u = self.users(f, d.id)
        return bool(u) and all(x.op in ('lshr', 'udiv', 'urem', 'zext', 'uitofp') or x.op == 'icmp' and x.x[0] == 'u' for x in u)

    def struct(self, f, i):
        d = f.defn(i.ops[0])
        return d.x['f'][-1][0] if d is not None and d.op == 'gep' and d.x.get('f') else None

    def literal(self, f, i):
        """the value of a constant in a parse tree: what the lexer has read"""
        d = f.defn(i.ops[0])
        return d is not None and d.op == 'gep' and d.x['t'] == 'struct.const_node'

    def measure(self, f, i):
        """sizes, counts and times that the memory system and the operating system keep"""
        a = i.ops[0]
        if isinstance(a, dict):
            g = a.get('g') or (a.get('gep') or {}).get('b', {}).get('g') if isinstance((a.get('gep') or {}).get('b', {}), dict) else a.get('g')
            return g in ('_gst_mem', '_gst_bytecode_counter')
        return isinstance(i.x, list) and i.x[0] in ('heap_data', 'memory_space', 'surv_space')

    def call(self, f, i, F, env):
        g = (i.callee or '').split('.')[0]
        if g == '_gst_adjust_time_zone' and i.ty == 'i64':
            # the time plus the bias, which is less than a day
            bias = ({('bias', i.id): 1}, 0); self.atom(F, ('bias', i.id), -(1 << 20), 1 << 20)
            return add(self.val(f, i.ops[0], F, env), bias)
        if g in ('_gst_current_time_zone_bias', 'tm_diff'): return self.opaque(f, i.id, F, i.ty, -(1 << 20), 1 << 20)
        if g == 'scan_digits': return self.opaque(f, i.id, F, i.ty)
        if g == 'strnspell': return self.opaque(f, i.id, F, i.ty, -(1 << 31) + 1, (1 << 31) - 1)
        if g in ('time', '_gst_get_time', '_gst_get_milli_time', '_gst_get_ns_time', 'mktime', 'timegm'):
            return self.opaque(f, i.id, F, i.ty, *((-(1 << 61), 1 << 61) if i.ty == 'i64' else (None, None)))
        if g in ('_gst_mpz_fdiv_qr_si', '_gst_mpz_tdiv_qr_si'):
            x, y = F.rng(self.val(f, i.ops[2], F, env))
            m = max(-x, y) - 1 if x is not None and y is not None else None
            return self.opaque(f, i.id, F, i.ty, None if m is None else -m, m)
        return V05.Access.call(self, f, i, F, env)

    def cond(self, f, o, truth, F, env, n=0):
        if isinstance(o, str) and o[:1] == '%' and not (env and int(o[1:]) in env):
            d = f.ins.get(int(o[1:]))
            if d is not None and d.op == 'extractvalue' and d.ty == 'i1':
                self.atom(F, ('v', d.id), int(truth), int(truth)); return
            if d is not None and d.op == 'icmp':
                # the two topmost bits of r are equal
                for x, y, p in ((d.ops[0], d.ops[1], d.x),):
                    e = f.defn(x)
                    if e is not None and e.op == 'xor':
                        nonneg = (p, y) in (('slt', 0), ('sle', -1)) and not truth or (p, y) in (('sge', 0), ('sgt', -1)) and truth
                        neg = (p, y) in (('slt', 0), ('sle', -1)) and truth or (p, y) in (('sge', 0), ('sgt', -1)) and not truth
                        if nonneg or neg:
                            for r, s in (e.ops, e.ops[::-1]):
                                t = f.defn(s)
                                if t is not None and t.op == 'shl' and t.ops[0] == r and t.ops[1] == 1 and nonneg:
                                    v = self.val(f, r, F, env)
                                    F.put(add(v, const(LO), -1)); F.put(add(const(HI), v, -1))
                            F.seen.add(('signs', neg, e.id))
                # o == FROM_INT (c)
                if d.x in ('eq', 'ne'):
                    for x, y in (d.ops, d.ops[::-1]):
                        if isinstance(y, dict) and y.get('ce') == 'inttoptr' and isinstance(y['a'][0], int) and y['a'][0] & 1:
                            v = add(self.untag(f, x, F, env), const(y['a'][0] >> 1), -1)
                            if truth == (d.x == 'eq'): F.put(v); F.put(scale(v, -1))
                            elif F.ge0(v): F.put((v[0], v[1] - 1))
                            elif F.ge0(scale(v, -1)): v = scale(v, -1); F.put((v[0], v[1] - 1))
                # shifting back gives what was shifted
                if d.x in ('eq', 'ne') and truth == (d.x == 'eq'):
                    for x, y in (d.ops, d.ops[::-1]):
                        t = f.defn(x)
                        if t is not None and t.op == 'ashr':
                            s = f.defn(t.ops[0])
                            if s is not None and s.op == 'shl' and s.ops[0] == y and s.ops[1] == t.ops[1]: F.seen.add(('exact', s.id))
        return V05.Access.cond(self, f, o, truth, F, env, n)


# ------------------------------------------------------------------ obligations
def site(f, i):
    """x where i is (x << 1) + 1"""
    if i.op in ('add', 'or') and i.ty == 'i64' and i.ops[1] == 1:
        s = f.defn(i.ops[0])
        if s is not None and s.op == 'shl' and s.ops[1] == 1: return s.ops[0], s.id
    return None


def split_signs(A, f, goal):
    """try the goal for each way in which operands known to have different (or the same) signs have them"""
    def run(F, env):
        g = goal(F, env)
        if g is not None and all(F.ge0(x) for x in g): return []
        for s in [s for s in F.seen if isinstance(s, tuple) and s[0] == 'signs']:
            ok = True; x = f.ins[s[2]]
            for side in (1, -1):
                G = Facts(F); G.wraps = dict(F.wraps)
                a, b = A.val(f, x.ops[0], G, env), A.val(f, x.ops[1], G, env)
                other = side if not s[1] else -side
                for v, t in ((a, side), (b, other)): G.put(v if t > 0 else (scale(v, -1)[0], scale(v, -1)[1] - 1))
                G.cache = {}
                h = goal(G, env)
                if not G.dead and not (h is not None and all(G.ge0(y) for y in h)): ok = False; break
            if ok: return []
        return g
    return run


def arithmetic(A, f, o, stop=()):
    """the operations that o is computed with"""
    out = []; todo = [o]; seen = set()
    while todo:
        o = todo.pop(); d = f.defn(o)
        if d is None or d.id in seen or d.id in stop: continue
        seen.add(d.id)
        if d.op == 'ashr' and d.ops[1] == 1 and f.defn(d.ops[0]) is not None and f.defn(d.ops[0]).op == 'ptrtoint': continue
        if d.op in ('add', 'sub', 'mul', 'shl', 'trunc'):
            if d.ty != 'i1': out.append(d)
            todo += d.ops
        elif d.op in ('ashr', 'lshr') and not isinstance(d.ops[1], int): out.append(d); todo.append(d.ops[0])
        elif d.op == 'extractvalue' and d.x == [0] and '.with.overflow' in (getattr(f.defn(d.ops[0]), 'callee', None) or ''): out.append(d); todo += f.defn(d.ops[0]).ops[:2]
        elif d.op in ('ashr', 'lshr', 'sdiv', 'udiv', 'zext', 'sext', 'freeze', 'phi', 'or'): todo += [x for x in d.ops]
        elif d.op == 'select': todo += d.ops[1:]
    return out


def exact(A, f, d):
    """the result of d is what the operation means"""
    w = width(d.ty)
    if A.unsigned(f, d): lo, hi = 0, (1 << w) - 1
    else: lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    def goal(F, env):
        if ('exact', d.id) in F.seen: return []
        inside = lambda v: [add(v, const(lo), -1), add(const(hi), v, -1)]
        if d.op == 'trunc': return inside(A.val(f, d.ops[0], F, env))
        if d.op == 'extractvalue':
            # a product with its overflow flag
            c = f.defn(d.ops[0]); flags = [x for x in A.users(f, c.id) if x.op == 'extractvalue' and x.x == [1]]
            return [const(0 if any(F.rng(A.val(f, '%%%d' % x.id, F, env)) == (0, 0) for x in flags) else -1)]
        if d.op == 'sub' and all(A.address(f, o) for o in d.ops): return []
        if d.op in ('shl', 'ashr', 'lshr') and not isinstance(d.ops[1], int):
            n = A.val(f, d.ops[1], F, env); g = [n, add(const(w - 1), n, -1)]
            if d.op != 'shl': return g
            if not all(F.ge0(x) for x in g): return g
        r = A.val(f, '%%%d' % d.id, F, env)
        if r != ({('v', d.id): 1}, 0): return []
        r = F.wraps.get(('v', d.id))
        if r is not None: return inside(r[0])
        if d.op == 'mul':
            x, y = F.rng(A.val(f, d.ops[0], F, env)), F.rng(A.val(f, d.ops[1], F, env))
            if None in x + y: return None
            c = [p * q for p in x for q in y]
            return [const(min(c) - lo), const(hi - max(c))]
        return None
    return split_signs(A, f, goal)


def operand(f, o, n=0):
    """an operand of a bytecode, put together from bytes"""
    seen = set(); todo = [o]; byte = False
    while todo:
        o = todo.pop(); d = f.defn(o)
        if isinstance(o, int) and 0 <= o < 256: continue
        if d is None: return False
        if d.id in seen: continue
        seen.add(d.id)
        if d.op == 'load' and d.ty == 'i8': byte = True; continue
        if d.op in ('zext', 'sext', 'trunc', 'or', 'phi', 'freeze') or d.op == 'shl' and d.ops[1] == 8: todo += [x for x in d.ops if d.op != 'shl' or x != 8]
        else: return False
        if len(seen) > 4000: return False
    return byte


# computations that nothing in the source bounds and that cannot reach the limits
TRUST = {
    ('_gst_init_dictionary', None): 'constants of the configuration, evaluated once at startup',
    ('VMpr_Processor_disableEnableInterrupts', 'add'): 'nesting depth of a process', ('VMpr_Processor_disableEnableInterrupts', 'trunc'): 'nesting depth of a process',
    ('_gst_identity_dictionary_at_inc', 'add'): 'number of executed bytecodes', ('_gst_identity_dictionary_at_inc', 'range'): 'number of executed bytecodes',
    ('_gst_update_object_memory_oop', 'add'): 'sum of two event counters',
    ('_gst_get_source_string', 'sub'): 'offsets in one source file',
    ('_gst_va_msg_sendf', 'trunc'): 'the caller passes an int for %i',
    ('c_to_smalltalk', 'trunc'): 'a C result of a narrower type has undefined upper bits',
    ('make_re_results', 'add'): 'offset of a match in a string the matcher addresses with ints',
    ('_gst_make_constant_oop', 'trunc'): 'code of a character constant, stored from an int',
    ('load_normal_oops', 'range'): 'only compared with what an image file contains',
}


def check(r):
    p = cfront.load_vm(passes=cfront.PASSES + ',' + V05.AFTER, inline=(120, V05.KEEP))
    A = Ranges(p, V05.SHAPES); A.hook = A.known
    def trusted(f, what):
        k = (f.base, what) if (f.base, what) in TRUST else (f.base, None) if (f.base, None) in TRUST else None
        if k: r.count('trusted')
        return k is not None
    lexer(p, r)
    conversions(r); elements(A, p, r); limbs(p, r)
    nfields = 0
    for f in sorted((f for f in p.funcs.values() if not f.decl), key=lambda f: f.name):
        reach = set(f.rpo()); A.cur = f.base
        for i in f.instrs():
            if i.bb not in reach: continue
            s = site(f, i)
            if s is None: continue
            x, sh = s
            def goal(F, env):
                v = A.val(f, x, F, env)
                return [add(v, const(LO), -1), add(const(HI), v, -1)]
            r.count('integers_made')
            if f.base == 'scan_number': continue            # see lexer()
            A.budget = 300
            ok = A.prove(f, i.bb, split_signs(A, f, goal)) or trusted(f, 'range')
            r.ob(ok)
            if not ok: r.violation('%s:range' % f.base, i.loc(), '%s makes a small integer of a value that is not shown to fit' % f.base)
            if any(a[0] == 'bias' for a in A.val(f, x, A.at(f, i.bb), None)[0]): continue
            for d in arithmetic(A, f, x, (sh,)):
                if d.op in ('trunc', 'shl') and operand(f, '%%%d' % d.id): continue
                A.budget = 300
                ok = A.prove(f, d.bb, exact(A, f, d)) or A.prove(f, i.bb, exact(A, f, d)) or trusted(f, d.op)
                r.count('operations'); r.ob(ok)
                if not ok: r.violation('%s:%s' % (f.base, d.op), d.loc(), '%s makes a small integer of a value whose computation may wrap around' % f.base)
        tagged(A, f, r, reach)
        characters(A, f, r, reach)
        if f.base.startswith('VMpr_'): narrowed(A, f, r, reach)
        nfields += fields(A, f, r, reach)


POS, NEG = '_gst_large_positive_integer_class', '_gst_large_negative_integer_class'
# conversions of large integers to C numbers: bytes, and the tests that allow them
TO_C = {'to_c_int_32': (4, ('is_c_int_32', 'is_c_uint_32')), 'to_c_int_64': (8, ('is_c_int_64', 'is_c_uint_64')), 'to_c_uint_64': (8, ('is_c_uint_64',))}
IS_C = {'is_c_int_32': (4, True), 'is_c_uint_32': (4, False), 'is_c_int_64': (8, True), 'is_c_uint_64': (8, False)}
FROM_C = {'from_c_int_64': True, 'from_c_uint_64': False, 'from_c_int_32': True, 'from_c_uint_32': False}


def conversions(r):
    """large integers keep all of their bytes in conversions to and from C numbers (interpretation over rows of bytes)"""
    p = cfront.load_vm()
    def get(g):
        f = [f for f in p.by_base(g) if not f.decl]
        return f[0] if f else None
    accepted = {}; n = 0
    for g, (size, signed) in IS_C.items():
        f = get(g)
        if f is None: continue
        n += 1
        for cls in (POS, NEG):
            for k in range(4, 12):
                try: res = bytedom.Machine(f, size=k, cls=cls).run()
                except bytedom.Unknown as e: res = None; why = str(e)
                r.count('conversions')
                if res is None:
                    r.ob(False); r.violation('%s:%s:%d' % (g, cls[11:14], k), f.blocks[0][0].loc(), '%s is not decided for large integers of %d bytes (%s)' % (g, k, why)); continue
                for v, asm, mem, al in res:
                    if v == 0: continue
                    conds = [(v, True)] if isinstance(v, tuple) else []
                    zero = set()
                    for c, t in conds + list(asm):
                        while isinstance(c, tuple) and c[0] == 'not': c, t = c[1], not t
                        if isinstance(c, tuple) and c[0] == 'zero' and t: zero |= {x for x in c[1] if isinstance(x, tuple)}
                        if isinstance(c, tuple) and c[0] == 'and' and t: zero |= {x for y in c[1] if isinstance(y, tuple) and y[0] == 'zero' for x in y[1] if isinstance(x, tuple)}
                    ok = (cls == POS or signed) and all(('b', j) in zero for j in range(size, k)); r.ob(ok)
                    if ok: accepted.setdefault(g, set()).add((cls, k))
                    else: r.violation('%s:%s:%d' % (g, cls[11:14], k), f.blocks[0][0].loc(), '%s accepts large integers of %d bytes that do not fit' % (g, k))
    for g, (size, tests) in TO_C.items():
        f = get(g)
        if f is None: continue
        n += 1
        for cls, k in sorted(set().union(*(accepted.get(t, set()) for t in tests))):
            try: res = bytedom.Machine(f, size=k, cls=cls).run()
            except bytedom.Unknown as e: res = [(str(e), (), {}, [])]
            want = ([('b', j) for j in range(k)] + [0 if cls == POS else 255] * size)[:size]
            for v, asm, mem, al in res:
                ok = v == want; r.count('conversions'); r.ob(ok)
                if not ok: r.violation('%s:%s:%d' % (g, cls[11:14], k), f.blocks[0][0].loc(), '%s does not keep the value of a large integer of %d bytes' % (g, k))
    for g, signed in FROM_C.items():
        f = get(g)
        if f is None: continue
        n += 1; w = width(f.params[0]) // 8
        for sign in '+-':
            try: res = bytedom.Machine(f, sign=sign).run()
            except bytedom.Unknown as e: res = [(str(e), (), {}, [(None, None)])]
            for v, asm, mem, al in res:
                if not al: continue                                   # a small integer
                r.count('conversions'); ok = len(al) == 1
                if ok:
                    (cls, k), = al; neg = signed and sign == '-'
                    ok = isinstance(k, int) and isinstance(cls, bytedom.Sym) and cls.a == ('class', NEG if neg else POS)
                    # the sign is that of the topmost byte
                    if ok: ok = k >= w + (not signed and sign == '-')
                    if ok:
                        body = [mem.get(repr(bytedom.Sym('at', bytedom.Sym('body', 0), 16 + j))) for j in range(k)]
                        ok = body == [('x', j) for j in range(w)] + [255 if neg else 0] * (k - w)
                r.ob(ok)
                if not ok: r.violation('%s:%s' % (g, sign), f.blocks[0][0].loc(), '%s does not keep the value of a %s number' % (g, 'negative' if sign == '-' and signed else 'large' if sign == '-' else 'positive'))
    if n < 6: raise vp.AnalysisBroken('the conversions between large integers and C numbers are not recognised any more')


def shapes(f, spec):
    """(case of the switch on the shape, block) for each shape of objects"""
    out = []
    for b in f.blocks:
        t = b[-1]
        if t.op != 'switch': continue
        d = f.defn(t.ops[0])
        if d is None or d.op not in ('and', 'lshr', 'ashr', 'trunc'): continue
        while d is not None and d.op in ('and', 'lshr', 'ashr', 'trunc', 'sext', 'zext') and d.ops[0] != '%%%d' % spec: d = f.defn(d.ops[0])
        if d is None or d.ops[0] != '%%%d' % spec: continue
        out += [(t.ops[k], t.ops[k + 1]['bb']) for k in range(2, len(t.ops) - 1, 2)]
    return out


def inbody(A, f, o):
    """is o the address of an element that depends on the index?"""
    todo = [o]; seen = set(); body = vary = False
    while todo:
        o = todo.pop(); d = f.defn(o)
        if d is not None and d.op in ('select', 'phi'):
            if d.id not in seen: seen.add(d.id); todo += d.ops[1:] if d.op == 'select' else d.ops
        elif d is not None and d.op == 'gep':
            vary |= bool(d.x['v'])
            if A.ptr(f, o, Facts(), None)[0][0] == 'body': body = True; vary |= A.varies(f, o)
            elif d.id not in seen: seen.add(d.id); todo.append(d.x['b'])
        elif d is not None and d.op in ('bitcast', 'freeze'): todo.append(d.ops[0])
    return body and vary


def elements(A, p, r):
    """an element is stored with a value that reading it gives back: for each shape, the width and sign of what is read,
    and the range of what is stored"""
    g, f = [p.by_base(x)[0] for x in ('index_oop_spec', 'index_oop_put_spec')]
    reads = {}
    for case, b in shapes(g, 3):
        dom = g.dominators(); inside = lambda x: x == b or (x in dom and dom[x] != x and inside(dom[x]))
        for i in g.instrs():
            if i.op == 'load' and inside(i.bb) and A.ptr(g, i.ops[0], Facts(), None)[0] [0] == 'body' and A.varies(g, i.ops[0]):
                ext = {u.op for u in g.instrs() if '%%%d' % i.id in u.ops and u.op in ('sext', 'zext')}
                reads.setdefault(case, set()).add((i.ty, 'sext' in ext))
    n = 0
    for case, b in shapes(f, 4):
        dom = f.dominators(); inside = lambda x: x == b or (x in dom and dom[x] != x and inside(dom[x]))
        for i in f.instrs():
            if i.op != 'store' or not inside(i.bb) or A.ptr(f, i.ops[1], Facts(), None)[0] [0] != 'body' or not A.varies(f, i.ops[1]): continue
            d = f.defn(i.ops[0]); t = d.ty if d is not None else f.params[f.param(i.ops[0])] if f.param(i.ops[0]) is not None else None
            rd = reads.get(case)
            ok = rd is None or len(rd) == 1 and next(iter(rd))[0] == t; r.count('elements'); r.ob(ok); n += 1
            if not ok: r.violation('index_oop_put_spec:width:%s' % case, i.loc(), 'index_oop_put_spec stores an element in another way than index_oop_spec reads it'); continue
            w = width(t)
            if w is None or w >= 64: continue
            if rd is None: lo, hi = -(1 << w - 1), (1 << w) - 1
            else: lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if next(iter(rd))[1] else (0, (1 << w) - 1)
            todo = [d]; seen = set()
            while todo:
                d = todo.pop()
                if d is None or d.id in seen: continue
                seen.add(d.id)
                if d.op in ('phi', 'select', 'freeze'): todo += [f.defn(o) for o in d.ops]
                if d.op != 'trunc': continue
                src = f.defn(d.ops[0])
                if src is None or src.op != 'ashr' or f.defn(src.ops[0]) is None or f.defn(src.ops[0]).op != 'ptrtoint': continue
                if f.defn(src.ops[0]).ops[0] != '%3': continue                    # the code of a character
                def goal(F, env):
                    v = A.val(f, d.ops[0], F, env)
                    return [add(v, const(lo), -1), add(const(hi), v, -1)]
                A.budget = 300; A.cur = f.base
                ok = A.prove(f, d.bb, goal) or A.prove(f, i.bb, goal); r.count('narrowed_elements'); r.ob(ok)
                if not ok: r.violation('index_oop_put_spec:range:%s' % case, d.loc(), 'index_oop_put_spec stores a number that is not shown to fit the element'); continue
                # and every number that fits is stored
                for k in (lo, hi) if rd is not None else ():
                    def refused(F, env):
                        v = A.val(f, d.ops[0], F, env)
                        return [add(add(v, const(k), -1), const(1), -1)] if k == lo else [add(add(const(k), v, -1), const(1), -1)]
                    A.budget = 300
                    no = A.prove(f, d.bb, refused) or A.prove(f, i.bb, refused); r.count('limits'); r.ob(not no)
                    if no: r.violation('index_oop_put_spec:refused:%d' % k, d.loc(), 'index_oop_put_spec refuses %d, which fits the element' % k)
    if n < 10: raise vp.AnalysisBroken('index_oop_put_spec is not recognised any more')


def limbs(p, r):
    """a small integer is made of the lowest limb of a large number only if it has no other"""
    for f in sorted((f for f in p.funcs.values() if not f.decl), key=lambda f: f.name):
        for i in f.instrs():
            s = site(f, i)
            if s is None: continue
            for d in [f.defn(s[0])] + [x for y in arithmetic(None, f, s[0]) for x in map(f.defn, y.ops)]:
                if d is None or d.op != 'load': continue
                e = f.defn(d.ops[0])
                if e is None: continue
                if e.op == 'load' and f.defn(e.ops[0]) is not None: e = f.defn(e.ops[0])
                if e.op != 'gep' or e.x['t'] != 'struct.mpz' and 'mpz' not in str(e.x.get('f')): continue
                m = e.x['b']; dom = f.dominators(); b = i.bb; ok = False; seen = set()
                while not ok and b not in seen:
                    seen.add(b); ps = set(f.preds[b])
                    if len(ps) == 1:
                        t = f.term(next(iter(ps)))
                        if t.op == 'br' and len(t.ops) == 3 and t.ops[1] != t.ops[2]: ok = single(f, t.ops[0], t.ops[2]['bb'] == b, m)
                        if t.op == 'switch' and sizeof(f, t.ops[0], m): ok = [t.ops[k] for k in range(2, len(t.ops) - 1, 2) if t.ops[k + 1]['bb'] == b] == [1] and t.ops[1]['bb'] != b
                    if dom.get(b) in (None, b): break
                    b = dom[b]
                r.count('limbs'); r.ob(ok)
                if not ok: r.violation('%s:limb' % f.base, i.loc(), '%s makes a small integer of the lowest limb of a number that may have more' % f.base)


def sizeof(f, o, m):
    """is o the number of limbs of m, or what a loop has left of it?"""
    todo = [o]; seen = set(); ok = False
    while todo:
        d = f.defn(todo.pop())
        if d is None or d.id in seen: continue
        seen.add(d.id)
        if d.op in ('sext', 'zext', 'freeze', 'phi'): todo += d.ops
        elif d.op in ('sub', 'add') and (d.ops[0] == 0 or d.ops[1] in (1, -1)): todo += d.ops
        elif d.op == 'load':
            e = f.defn(d.ops[0])
            if not (e is not None and e.op == 'gep' and e.x['b'] == m and d.ty in ('i32', 'i64') or d.ops[0] == m): return False
            ok = True
        else: return False
    return ok


def single(f, c, truth, m, n=0):
    """does the condition imply that the number has at most one limb?"""
    d = f.defn(c)
    if d is None or n > 8: return False
    if d.op in ('zext', 'freeze'): return single(f, d.ops[0], truth, m, n + 1)
    if d.op == 'xor' and d.ops[1] in (1, -1): return single(f, d.ops[0], not truth, m, n + 1)
    if d.op == 'and' and truth or d.op == 'or' and not truth: return any(single(f, x, truth, m, n + 1) for x in d.ops)
    if d.op == 'select':
        if truth and d.ops[2] == 0: return any(single(f, x, True, m, n + 1) for x in d.ops[:2])
        if not truth and d.ops[1] in (1, -1): return any(single(f, x, False, m, n + 1) for x in (d.ops[0], d.ops[2]))
        return False
    if d.op != 'icmp' or not isinstance(d.ops[1], int) or not sizeof(f, d.ops[0], m): return False
    p, k = d.x, d.ops[1]
    if not truth: p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult'}[p]
    return p == 'eq' and k in (0, 1) or p in ('slt', 'ult') and k <= 2 or p in ('sle', 'ule') and k <= 1


def tagged(A, f, r, reach):
    """arithmetic on small integers as they are, without taking their tag off"""
    for i in f.instrs():
        if i.bb not in reach: continue
        if i.op == 'inttoptr':
            d = f.defn(i.ops[0])
            if d is None or d.op not in ('add', 'sub', 'mul', 'shl') or site(f, d): continue
            leaves = [f.defn(o) for o in d.ops]; n = 0
            for x in leaves:
                if x is not None and x.op in ('add', 'sub', 'xor', 'and') and isinstance(x.ops[1], int): x = f.defn(x.ops[0])
                n += x is not None and x.op == 'ptrtoint'
            if n == 2:
                r.ob(False); r.violation('%s:tagged' % f.base, i.loc(), '%s makes a small integer with an unchecked %s of two small integers' % (f.base, d.op))
            elif n == 1 and isinstance(d.ops[1], int) and d.ops[1] & 1 == 0:
                ok = d.op in ('add', 'sub') and d.ops[1] in (2, -2); r.count('counters'); r.ob(ok)
                if not ok: r.violation('%s:tagged' % f.base, i.loc(), '%s changes a small integer by an unchecked %s' % (f.base, d.op))
        elif asmtext(i) is not None:
            outs = [x for x in A.users(f, i.id) if x.op == 'extractvalue']
            res = [x for x in outs if x.x == [0]]; flags = [x for x in outs if x.x == [1]]
            for x in res:
                for bb in uses(A, f, x):
                    parts = ()
                    if isinstance(bb, tuple): parts, bb = (bb,), bb[1]
                    if bb not in reach: continue
                    def goal(F, env): return [const(0 if any(F.rng(A.val(f, '%%%d' % y.id, F, env)) == (0, 0) for y in flags) else -1)]
                    A.budget = 300
                    ok = 'seto' in asmtext(i) and A.prove(f, bb, goal, None, parts); r.count('checked_additions'); r.ob(ok)
                    if not ok: r.violation('%s:overflow' % f.base, i.loc(), '%s uses the sum or difference of two small integers where it may have overflowed' % f.base)


# arguments of which a primitive only wants the lower part
NARROW = {
    'VMpr_CObject_at': 'code of a C type', 'VMpr_CObject_atPut': 'C data: stores what C stores, and the code of a C type', 'VMpr_Memory_atPut': 'C data: stores what C stores',
    'VMpr_CompiledBlock_create': 'numbers of arguments and temporaries, from the compiler', 'VMpr_CompiledMethod_create': 'numbers of arguments and temporaries, from the compiler',
    'VMpr_FileDescriptor_fileOp': 'file descriptor, or kind of event', 'VMpr_FileDescriptor_socketOp': 'file descriptor, or kind of event',
    'VMpr_ObjectMemory_quit': 'the system keeps the lowest byte of an exit code', 'VMpr_Processor_signalOnInterrupt': 'number of a signal, that the system checks',
    'VMpr_Processor_disableEnableInterrupts': 'nesting depth of a process', 'VMpr_Stream_fileInLine': 'line number',
    'VMpr_SystemDictionary_getTraceFlag': 'number of a flag', 'VMpr_SystemDictionary_setTraceFlag': 'number and value of a flag',
}


def narrowed(A, f, r, reach):
    """a primitive that narrows an argument acts on the number it was given"""
    def arg(o, n=0):
        d = f.defn(o)
        if d is None or n > 6: return False
        if d.op == 'ashr' and d.ops[1] == 1:
            t = f.defn(d.ops[0])
            return t is not None and t.op == 'ptrtoint'
        return d.op in ('phi', 'freeze', 'sub', 'select') and any(arg(x, n + 1) for x in d.ops)
    for i in f.instrs():
        if i.bb not in reach or i.op != 'trunc' or i.ty not in ('i32', 'i16', 'i8') or i.file != 'prims.def' or not arg(i.ops[0]): continue
        if f.base in NARROW: r.count('trusted'); continue
        w = width(i.ty); us = A.users(f, i.id)
        def goal(F, env):
            v = A.val(f, i.ops[0], F, env)
            # as a signed or as an unsigned number
            return [add(v, const(-(1 << (w - 1)) if not A.unsigned(f, i) else 0), -1), add(const((1 << w) - 1 if A.unsigned(f, i) else (1 << (w - 1)) - 1), v, -1)]
        A.budget = 300
        ok = A.prove(f, i.bb, goal); r.count('arguments_narrowed'); r.ob(ok)
        if not ok: r.violation('%s:narrowed' % f.base, i.loc(), '%s narrows an argument to %d bits that is not shown to fit, and would act on another number' % (f.base, w))


def fields(A, f, r, reach):
    """a record put together from bit-fields: each number fits in its field"""
    put = []
    for i in f.instrs():
        if i.bb not in reach or i.op != 'and' or i.ty not in ('i64', 'i32') or not isinstance(i.ops[1], int) or i.ops[1] < 3 or i.ops[1] & (i.ops[1] + 1): continue
        z = f.defn(i.ops[0]); us = A.users(f, i.id)
        if z is None or z.op not in ('zext', 'sext', 'trunc') or not us or not all(u.op == 'shl' and isinstance(u.ops[1], int) and all(x.op == 'or' for x in A.users(f, u.id)) for u in us): continue
        put.append((i, z))
    if len(put) < 3: return 0
    n = 0
    for i, z in put:
        todo = [z.ops[0]]; seen = set(); calls = set()
        while todo:
            d = f.defn(todo.pop())
            if d is None or d.id in seen: continue
            seen.add(d.id)
            if d.op == 'call': calls.add((d.callee or '').split('.')[0])
            elif d.op in ('phi', 'select', 'and', 'ashr', 'lshr', 'trunc', 'zext', 'sext', 'freeze'): todo += d.ops
        if calls & {'_gst_is_simple_return', '_gst_check_kind_of_block'}: r.count('trusted'); continue
        def goal(F, env):
            v = A.val(f, z.ops[0], F, env)
            return [v, add(const(i.ops[1]), v, -1)]
        A.budget = 300
        ok = A.prove(f, i.bb, goal); n += 1; r.count('fields'); r.ob(ok)
        if not ok: r.violation('%s:field' % f.base, i.loc(), '%s stores a number in a field of %d bits in which it is not shown to fit' % (f.base, i.ops[1].bit_length()))
    return n


def uses(A, f, x):
    """blocks in which the object made of the integer x is stored, passed on or returned"""
    todo = [x]; seen = set(); out = []
    while todo:
        x = todo.pop()
        if x.id in seen: continue
        seen.add(x.id)
        for u in A.users(f, x.id):
            if u.op in ('inttoptr', 'bitcast', 'freeze', 'ptrtoint'):
                if any(y.op == 'inttoptr' for y in (x, u)) or u.op != 'ptrtoint': todo.append(u)
            elif u.op == 'phi': out += [(pb, u.bb) for pb, o in zip(u.x, u.ops) if o == '%%%d' % x.id]
            elif u.op in ('store', 'call', 'ret', 'select'): out.append(u.bb)
    return list(dict.fromkeys(out))


def asmtext(i):
    x = i.x if isinstance(i.x, dict) else {}
    return x.get('asm') if x.get('k') == 'asm' else None


def characters(A, f, r, reach):
    """&_gst_mem.ot[code + first character]"""
    for i in f.instrs():
        if i.bb not in reach or i.op != 'gep': continue
        b, off = i.x['b'], i.x['o']; vs = i.x['v']
        if len(vs) != 1 or vs[0][1] != 16: continue
        d = f.defn(b)
        if d is None or d.op != 'load' or '_gst_mem' not in str(d.ops[0]): continue
        e = f.defn(vs[0][0]); t = e
        while t is not None and t.op in ('sext', 'zext', 'freeze'): t = f.defn(t.ops[0])
        if off == FIRST * 16: code = vs[0][0]; k = 0
        elif t is not None and t.op in ('add', 'sub') and isinstance(t.ops[1], int) and (t.ops[1] if t.op == 'add' else -t.ops[1]) == FIRST: code = t.ops[0]; k = 0
        else: continue
        def goal(F, env):
            v = A.val(f, code, F, env)
            return [v, add(const(255), v, -1)]
        A.budget = 300
        ok = A.prove(f, i.bb, goal); r.count('characters_made'); r.ob(ok)
        if not ok: r.violation('%s:character' % f.base, i.loc(), '%s takes the character of a code that is not shown to be in 0..255' % f.base)


def lexer(p, r):
    """numbers read from source code: every digit is added after a comparison with the largest number that has room for
    it; a number that has not is marked, and a marked number is not used as an integer"""
    n = 0
    for f in sorted((f for f in p.funcs.values() if not f.decl), key=lambda f: f.name):
        if not any(i.file == 'lex.c' for i in f.blocks[0]): continue
        for ad in f.instrs():
            if ad.op != 'add' or ad.ty != 'i64': continue
            m = f.defn(ad.ops[0]); v = ad.ops[1]
            if m is None or m.op != 'mul': m = f.defn(ad.ops[1]); v = ad.ops[0]
            if m is None or m.op != 'mul': continue
            ph = f.defn(m.ops[0]); base = m.ops[1]
            if ph is None or ph.op != 'phi': ph = f.defn(m.ops[1]); base = m.ops[0]
            if ph is None or ph.op != 'phi' or not flows(f, ad.id, ph): continue
            n += 1; marks = {}
            for c in f.instrs():
                if c.op != 'icmp' or c.x not in ('ugt', 'ule', 'ult', 'uge'): continue
                q, pred = c.ops[1], c.x
                if c.ops[0] != '%%%d' % ph.id:
                    if c.ops[1] != '%%%d' % ph.id: continue
                    q = c.ops[0]; pred = pred.translate(str.maketrans('gl', 'lg'))
                q = f.defn(bare(f, q))
                if q is None or q.op != 'udiv' or bare(f, q.ops[1]) != bare(f, base): continue
                lim = limits(f, q.ops[0], v)
                if lim is None: continue
                exceeds = pred == 'ugt' or pred == 'ule'
                ok = exceeds and all(l <= (W62 if neg else W62 - 1) for l, neg in lim)
                r.count('limits'); r.ob(ok)
                if not ok: r.violation('%s:limit' % f.base, c.loc(), '%s compares a number being read with a wrong limit' % f.base); continue
                how = marked(f, c, pred == 'ugt')
                r.ob(how is not None)
                if how is None: r.violation('%s:mark' % f.base, c.loc(), '%s does not mark a number that is too large' % f.base)
                else: marks[c.bb] = True
            # no way round the loop without a comparison
            todo = [ph.bb]; seen = set(); free = False
            while todo and not free:
                b = todo.pop()
                if b in seen or b in marks: continue
                seen.add(b)
                if b == ad.bb: free = True
                todo += [x for x in f.succs(b) if not absent(p, f, b, x)]
            r.ob(not free)
            if free: r.violation('%s:unchecked' % f.base, ad.loc(), '%s adds a digit to a number without comparing it with the largest number that has room for it' % f.base)
    if n < 2: raise vp.AnalysisBroken('the functions that read numbers are not recognised any more')
    used(p, r)


def bare(f, o):
    d = f.defn(o)
    while d is not None and d.op in ('zext', 'sext', 'freeze'): o = d.ops[0]; d = f.defn(o)
    return o


def absent(p, f, b, to):
    """a branch for a null pointer in place of a parameter that no caller leaves out"""
    t = f.term(b)
    if t.op != 'br' or len(t.ops) != 3: return False
    c = f.defn(t.ops[0])
    if c is None or c.op != 'icmp' or c.ops[1] != 'null' or c.x not in ('eq', 'ne'): return False
    k = f.param(c.ops[0])
    if k is None or (c.x == 'eq') != (t.ops[2]['bb'] == to): return False
    calls = [i for g in p.funcs.values() if not g.decl for i in g.instrs() if i.op == 'call' and i.callee == f.name]
    return bool(calls) and all(g.ops[k] != 'null' for g in calls)


def flows(f, k, ph):
    """is the value k what the phi becomes next time?"""
    todo = [ph.id]; seen = set()
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); d = f.ins.get(x)
        if x == k: return True
        if d is not None and d.op == 'phi': todo += [int(o[1:]) for o in d.ops if isinstance(o, str) and o[:1] == '%']
    return False


def limits(f, o, v):
    """o = limit - v, as [(limit, only for negative numbers)]"""
    d = f.defn(bare(f, o))
    if d is None: return None
    if d.op == 'sub' and bare(f, d.ops[1]) == bare(f, v):
        e = f.defn(d.ops[0]); w = width(d.ty)
        if isinstance(d.ops[0], int): return [(d.ops[0] % (1 << w), False)]
        if e is not None and e.op == 'select' and all(isinstance(x, int) for x in e.ops[1:]):
            t = sense(f, e.ops[0])
            return None if t is None else [(e.ops[1] % (1 << w), t), (e.ops[2] % (1 << w), not t)]
    if d.op == 'select':
        t = sense(f, d.ops[0])
        a, b = limits(f, d.ops[1], v), limits(f, d.ops[2], v)
        if t is None or a is None or b is None: return None
        return [(l, t) for l, _ in a] + [(l, not t) for l, _ in b]
    return None


def sense(f, o):
    """is this true for negative numbers (the flag is the second parameter)?"""
    d = f.defn(o)
    if d is not None and d.op == 'icmp' and d.x in ('ne', 'eq') and d.ops[1] == 0 and f.param(d.ops[0]) == 1: return d.x == 'ne'
    return None


def marked(f, c, truth):
    """what is done when the number is too large: a store of true through a parameter, or an error"""
    # or-ed to the flag: it keeps an earlier mark
    big = {c.id} if truth else set(); kept = set()
    old = lambda o, k: f.defn(o) is not None and f.defn(o).op in ('load', 'zext') and f.param(f.defn(o).ops[0] if f.defn(o).op == 'load' else (f.defn(f.defn(o).ops[0]) or f.defn(o)).ops[0]) == k
    for _ in range(4):
        for u in f.instrs():
            us = [int(o[1:]) for o in u.ops if isinstance(o, str) and o[:1] == '%' and o[1:].isdigit()]
            if u.op == 'xor' and c.id in us and not truth: big.add(u.id)
            elif u.op in ('zext', 'freeze') and us and us[0] in big: big.add(u.id)
            elif u.op == 'or' and any(x in big for x in us): kept |= {(u.id, k) for k in range(len(f.params)) if any(old(o, k) for o in u.ops)}
            elif u.op == 'select' and us and us[0] in big and u.ops[1] == 1: kept |= {(u.id, k) for k in range(len(f.params)) if old(u.ops[2], k)}
            elif u.op in ('zext', 'trunc') and us: kept |= {(u.id, k) for x, k in kept if x == us[0]}
            elif u.op == 'store' and us and any((us[0], k) in kept for k in [f.param(u.ops[1])]) and c.bb == u.bb: return 'flag'
    for u in f.instrs():
        if '%%%d' % c.id not in u.ops: continue
        if u.op == 'br' and len(u.ops) == 3:
            b = u.ops[2 if truth else 1]['bb']
            if len(set(f.preds[b])) == 1 and any(i.op == 'store' and i.ops[0] == 1 and f.param(i.ops[1]) is not None for i in f.blocks[b]): return 'flag'
            # a local flag
            for s in [b] + f.succs(b):
                for i in f.blocks[s]:
                    if i.op == 'phi' and any(o == 1 for o, pb in zip(i.ops, i.x) if pb in (u.bb, b)) and errs(f, i): return 'error'
        if u.op == 'select' and u.ops[1 if truth else 2] == 1 and errs(f, u): return 'error'
        if u.op in ('or', 'zext'):
            if errs(f, u): return 'error'
    return None


def errs(f, i):
    """does a flag, once it is set, make the function fail?"""
    todo = [i.id]; seen = set()
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        for u in f.instrs():
            if '%%%d' % x not in u.ops: continue
            if u.op in ('phi', 'select', 'zext', 'or', 'icmp'): todo.append(u.id)
            if u.op == 'br' and len(u.ops) == 3:
                for o in u.ops[1:]:
                    if any(y.op == 'call' and y.callee == '_gst_errorf' for y in f.blocks[o['bb']]): return True
    return False


def used(p, r):
    """the number read is used as an integer only where it is not marked"""
    f = p.by_base('scan_number')[0]; nums, flags = set(), set()
    for i in f.instrs():
        if i.op == 'call' and (i.callee or '').split('.')[0] in ('scan_digits', 'scan_fraction'):
            al = [f.defn(o) for o in i.ops]
            al = [x for x in al if x is not None and x.op == 'alloca']
            flags |= {x.id for x in al if x.x and x.x[0] == 'i32'}
            nums |= {x.id for x in al if x.x and x.x[0] == 'i64'}
            if flags & {x.id for x in al}: nums.add(i.id)
    ld = lambda o, s: f.defn(o) is not None and f.defn(o).op == 'load' and f.defn(f.defn(o).ops[0]) is not None and f.defn(f.defn(o).ops[0]).id in s
    dom = f.dominators()
    def number(o, n=0):
        d = f.defn(o)
        if d is None or n > 4: return False
        if d.id in nums and d.op == 'call' or ld(o, nums): return True
        if d.op in ('sub', 'shl', 'add', 'or'): return any(number(x, n + 1) for x in d.ops)
        if d.op == 'select': return any(number(x, n + 1) for x in d.ops[1:])
        if d.op == 'inttoptr': return number(d.ops[0], n + 1)
        return False
    n = 0
    def uses():
        for i in f.instrs():
            if i.op == 'store' and number(i.ops[0]):
                t = f.defn(i.ops[1])
                if t is None or t.op != 'alloca' or t.id not in nums: yield i, i.bb      # otherwise it accumulates
            elif i.op == 'phi':
                for k, o in enumerate(i.ops):
                    d = f.defn(o)
                    if d is not None and d.op == 'inttoptr' and number(o): yield i, i.x[k]
            elif i.op == 'call' and (i.callee or '').split('.')[0] not in ('scan_digits', 'scan_fraction', 'llvm'):
                if any(f.defn(o) is not None and f.defn(o).op == 'inttoptr' and number(o) for o in i.ops): yield i, i.bb
    for i, b in uses():
        n += 1; ok = False
        while not ok:
            ps = set(f.preds[b])
            if len(ps) == 1:
                x = f.term(next(iter(ps)))
                if x.op == 'br' and len(x.ops) == 3 and x.ops[1] != x.ops[2]:
                    c = f.defn(x.ops[0])
                    if c is not None and c.op == 'icmp' and c.ops[1] == 0 and ld(c.ops[0], flags):
                        ok = (c.x == 'eq') == (x.ops[2]['bb'] == b)
                        if ok: break
            d = dom.get(b)
            if d is None or d == b: break
            b = d
        r.count('numbers_used'); r.ob(ok)
        if not ok: r.violation('scan_number:large', i.loc(), 'scan_number uses a number that may have been marked as too large')
    if n < 2: raise vp.AnalysisBroken('scan_number is not recognised any more')


if __name__ == '__main__':
    vp.main('V06', check, explanation="""
Every place of the virtual machine that tags a computed value as a SmallInteger, makes a character of a number, or computes with
tagged integers is found in LLVM's intermediate form by what it does (shift and tag, address of the character table).  Its value
must be shown to lie in the range, from the comparisons on the way to it (linear facts; intervals of floating-point values, with
the spacing of the format, for conversions), and every addition, subtraction, multiplication, shift and narrowing on the way from
the operands to the value must be shown to be exact.  Computations on tagged integers must be guarded by an overflow test: a
checking intrinsic, a check of the sign bits, or the carry-out of the inline assembly.  A primitive that narrows an argument to a C
int or shorter must have shown that it fits, and so must what is put in a bit-field of the header of a method or block (C data, descriptors and codes that the system checks are listed apart).  An element of an object with
elements narrower than a small integer is stored with the width and the sign that reading it uses, only values in that range are
stored, and none of them is refused.  The conversions between large integers and C numbers are interpreted over rows of bytes, once
for each class and each number of bytes their tests accept: every byte must arrive at its place and the others be filled with the
sign.  A small integer is made of the lowest limb of a large number only where its size is known to be one.  The scanner's number accumulators must be
marked when they overflow, with limits that match the range, and the marked number must not be used as a SmallInteger; a number that
is stored into a bounded field of the scanner must be compared first, and the mark of an exponent must end in an error.""",
            trusted=['%s: %s' % (k[0], v) for k, v in sorted(TRUST.items(), key=str)] + [
                     'counters of events (bumped by one) do not reach 2^62', 'objects are smaller than 2^57 words (V05)'])
