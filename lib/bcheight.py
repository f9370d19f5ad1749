"""Stack effect of every bytecode in a walker of lib/bcwalk, against byte.def."""
from bcwalk import Walk, add, scale, sym, const
from cfront import AnalysisBroken

BS = '_gst_builtin_selectors'
UP = {'PUSH_RECEIVER_VARIABLE', 'PUSH_TEMPORARY_VARIABLE', 'PUSH_LIT_CONSTANT', 'PUSH_LIT_VARIABLE', 'PUSH_SELF', 'PUSH_SPECIAL',
      'PUSH_INTEGER', 'PUSH_OUTER_TEMP', 'DUP_STACK_TOP'}
DOWN = {'POP_STACK_TOP', 'POP_INTO_NEW_STACKTOP', 'POP_JUMP_TRUE', 'POP_JUMP_FALSE', 'POP_JUMP_TRUE_BACK', 'POP_JUMP_FALSE_BACK'}
SAME = {'STORE_RECEIVER_VARIABLE', 'STORE_TEMPORARY_VARIABLE', 'STORE_LIT_VARIABLE', 'STORE_OUTER_TEMP', 'LINE_NUMBER_BYTECODE',
        'MAKE_DIRTY_BLOCK', 'EXIT_INTERPRETER', 'JUMP', 'JUMP_BACK', 'RETURN_METHOD_STACK_TOP', 'RETURN_CONTEXT_STACK_TOP', 'EXT_BYTE'}
ENDS = {'JUMP', 'JUMP_BACK', 'RETURN_METHOD_STACK_TOP', 'RETURN_CONTEXT_STACK_TOP', 'INVALID'}
SELSIZE, NUMARGS, SYMBOL = 24, 16, 8


def low(x):
    """operand of byte.def with an unextended argument: an integer or 'L'"""
    return x


def delta(op, args):
    """{symbol: coefficient} with the constant under 1; symbols: 'L', ('na', index)"""
    if op in UP: return {1: 1}
    if op in DOWN: return {1: -1}
    if op in SAME: return {}
    if op == 'SEND':
        n, sup, na = args; d = {1: -sup}
    elif op == 'SEND_ARITH': d = {}; na = ('na', args[0])
    elif op == 'SEND_SPECIAL': d = {}; na = ('na', args[0] + 16)
    elif op == 'SEND_IMMEDIATE': d = {1: -args[1]}; na = ('na', args[0])
    else: return None
    if isinstance(na, int): d[1] = d.get(1, 0) - na
    else: d[na] = d.get(na, 0) - 1
    return d


def plus(a, b):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + c
    return {k: c for k, c in r.items() if c}


def observed(v, unit, bp):
    """linear value (without the height itself) -> the same form, or None"""
    out = {}
    c = v[1]
    if c % unit: return None
    if c: out[1] = c // unit
    for t, k in v[0]:
        if k % unit: return None
        k //= unit
        if t[0] == 'ld' and t[1] in ('i8', 'i32'):
            a = t[2]
            terms = dict(a[0])
            if bp is not None and terms == {('phi', bp): 1} and a[1] == 1: out['L'] = out.get('L', 0) + k; continue
            if terms.get(('g', BS)) == 1:
                rest = {x: q for x, q in terms.items() if x != ('g', BS)}
                if not rest and a[1] % SELSIZE == NUMARGS: s = ('na', a[1] // SELSIZE); out[s] = out.get(s, 0) + k; continue
                if len(rest) == 1 and a[1] == NUMARGS:
                    (x, q), = rest.items()
                    if q == SELSIZE and x[0] == 'ld' and x[1] == 'i8' and dict(x[2][0]) == {('phi', bp): 1} and x[2][1] == 1:
                        s = ('na', 'L'); out[s] = out.get(s, 0) + k; continue
                if len(rest) == 1 and a[1] == NUMARGS + 16 * SELSIZE: return {('?',): 1}
        return {('?', str(t)[:60]): 1}
    return {k: c for k, c in out.items() if c}


def show(d):
    if d is None: return 'unknown'
    if not d: return '0'
    def n(k): return 'operand' if k == 'L' else 'numArgs(selector %s)' % (k[1] if k[1] != 'L' else 'operand') if isinstance(k, tuple) and k[0] == 'na' else str(k)
    return ' '.join('%+d' % c if k == 1 else ('%+d*' % c if abs(c) != 1 else '+' if c > 0 else '-') + n(k) for k, c in sorted(d.items(), key=str))


class Heights:
    def __init__(self, walk, defs):
        self.w = walk; self.d = defs
        push = [e for e in walk.effects(44) if e[0] == 'next']
        line = [e for e in walk.effects(54) if e[0] == 'next']
        dup = [e for e in walk.effects(52) if e[0] == 'next']
        pop = [e for e in walk.effects(48) if e[0] == 'next']
        ext = [p.id for p in walk.phis]
        self.height = self.unit = self.bp = None
        def d(es, p):
            out = set()
            for _, nv, _, _ in es:
                if p in nv: out.add(add(nv[p], sym('phi', p), -1))
            return out
        for p in ext:
            a, b, c, e = d(push, p), d(line, p), d(dup, p), d(pop, p)
            consts = lambda s: {x[1] for x in s if not x[0]}
            if consts(a) == consts(b) == {2}: self.bp = p
            # the majority of the four agrees, so that one wrong action does not hide the variable
            up = [x[1] for s in (a, c) for x in s if not x[0] and x[1]]
            if b == {const(0)} and up and not any(x[0] for s in (a, c) for x in s):
                u = max(set(up), key=up.count)
                down = {x[1] for x in e if not x[0]}
                if u > 0 and (len(set(up)) == 1 or -u in down) and any(x < 0 for x in down): self.height, self.unit = p, u
        if self.height is None or self.bp is None: raise AnalysisBroken('stack height not recognised in %s (line %s)' % (walk.f.name, walk.sw.line))

    def expected(self, k):
        """(final delta or None, [partial deltas])"""
        cur = {}; parts = [cur]; ends = False
        ops = self.d.canon_byte(k, (0, 'L'))
        for op, args in ops:
            x = delta(op, args)
            if x is None: return None, parts, ops
            cur = plus(cur, x); parts.append(cur)
            if op in ENDS: ends = True; break
        return (None if ends else cur), parts, ops
