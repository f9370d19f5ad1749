"""V13: every component gives the 256 bytecodes the same numbers, operands and stack effects."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import bcdefs, bcheight, bcwalk, cfront, layout, peephole, sccp, stsys, vp
from bcheight import Heights, observed, show
from bcwalk import Walk, add, sym, walkers
from cfront import AnalysisBroken

WALKERS = (('opt', '_gst_compute_stack_positions', 1), ('opt', '_gst_verify_method', 2))
BLOCKKIND = ('opt', '_gst_check_kind_of_block')
DISASM = ('byte', '_gst_print_bytecode_name')
STCOMP = 'packages/stinst/parser/STCompLit.st'
CODE = 'kernel/CompildCode.st'
# names used by the compiler written in Smalltalk where they are not the C name in mixed case
STNAME = {'SendImmediateSuper': 'SEND_SUPER_IMMEDIATE', 'PushOuterVariable': 'PUSH_OUTER_TEMP', 'StoreOuterVariable': 'STORE_OUTER_TEMP',
          'PopStoreIntoArray': 'POP_INTO_NEW_STACKTOP', 'LineNumber': 'LINE_NUMBER_BYTECODE', 'LastImmediateSend': None}
# what the decoder of the class library sends to its client for each single operation
CLIENT = {'PUSH_TEMPORARY_VARIABLE': 'pushTemporary', 'PUSH_OUTER_TEMP': 'pushTemporary', 'PUSH_LIT_VARIABLE': 'pushGlobal',
          'PUSH_RECEIVER_VARIABLE': 'pushInstVar', 'STORE_TEMPORARY_VARIABLE': 'storeTemporary', 'STORE_OUTER_TEMP': 'storeTemporary',
          'STORE_LIT_VARIABLE': 'storeGlobal', 'STORE_RECEIVER_VARIABLE': 'storeInstVar', 'PUSH_INTEGER': 'pushLiteral',
          'PUSH_LIT_CONSTANT': 'pushLiteral', 'POP_INTO_NEW_STACKTOP': 'popIntoArray', 'POP_STACK_TOP': 'popStackTop',
          'MAKE_DIRTY_BLOCK': 'makeDirtyBlock', 'RETURN_METHOD_STACK_TOP': 'returnFromMethod', 'RETURN_CONTEXT_STACK_TOP': 'returnFromContext',
          'DUP_STACK_TOP': 'dupStackTop', 'EXIT_INTERPRETER': 'exitInterpreter', 'POP_JUMP_TRUE': 'popJumpIfTrueTo', 'POP_JUMP_FALSE': 'popJumpIfFalseTo'}


def arity(s):
    if s[:1].isalpha() or s[:1] == '_': return s.count(':')
    return 1


def cname(s): return re.sub(r'(?<=[a-z])([A-Z])', r'_\1', s).upper()


def tables(r, D, enums):
    special = {n: v for n, v in enums.items() if n.endswith('_SPECIAL') and v < 32}
    for k in range(256):
        a, b = D.canon_byte(k), D.canon_vm(k, special)
        r.count('bytecodes_compared'); ok = bcdefs.same(a, b); r.ob(ok)
        if not ok:
            r.violation('vm:%d' % k, 'libgst/byte.def (bytecode %d)' % k,
                        'the decoder reads it as "%s", the interpreter (vm.def) as "%s"' % (bcdefs.text(a), bcdefs.text(b)))
        for name, args in a:
            for x in args:
                if isinstance(x, str) and x.startswith('?'):
                    raise AnalysisBroken('byte.def: operand %s of bytecode %d not understood' % (x, k))
    T, line = bcdefs.bytearray_of(os.path.join(cfront.REPO, CODE), 'bytecodeInfoTable')
    if len(T) != 1024:
        r.violation('infotable:size', '%s:%d' % (CODE, line), 'bytecodeInfoTable has %d bytes, 1024 are indexed' % len(T)); return

    def expand(k, arg, depth=0):
        if k < 64: return D.instantiate(k, arg)
        if depth > 8: return [('LOOP', ())]
        b1, b2, c, fl = T[4 * k:4 * k + 4]
        a1, a2 = (c, arg) if fl % 2 == 0 else (arg, c)
        if b1 == 55: return D.instantiate(b2, (a1, a2)) if b2 < 64 else [('EXT_INTO_SUPEROP', ())]
        return expand(b1, a1, depth + 1) + expand(b2, a2, depth + 1)
    for k in range(64, 256):
        if any(n == 'INVALID' for n, _ in D.canon_byte(k)): continue
        a, b = D.canon_byte(k), expand(k, 'A')
        r.count('superoperators_of_the_class_library'); r.ob(a == b)
        if a != b:
            r.violation('infotable:%d' % k, '%s:%d' % (CODE, line), 'superoperator %d is decoded as "%s", byte.def has "%s"' % (k, bcdefs.text(b), bcdefs.text(a)))
    for k in range(256):
        if any(n == 'LINE_NUMBER_BYTECODE' for n, _ in D.canon_byte(k)) != bool(T[4 * k + 3] & 128):
            r.violation('infotable:line:%d' % k, '%s:%d' % (CODE, line), 'the line number flag of bytecode %d is wrong' % k)


def superops(r, D, p):
    for which in (1, 2):
        g = p.globals.get('search_superop_fixed_arg_%d.keylist' % which)
        if g is None:
            c = [x for x in p.globals.values() if x['name'].endswith('.keylist')]
            if len(c) != 2: raise AnalysisBroken('superoperator tables not found')
            g = sorted(c, key=lambda x: x['name'])[which - 1]
        for e in g['init']['arr']:
            key, n = e['st'] if 'st' in e else (None, -1)
            if n == -1 or n > 255 and n == 0xffffffff: continue
            by = key if isinstance(key, list) else key.get('s') if 's' in key else key.get('arr')
            by = [ord(c) if isinstance(c, str) else c & 255 for c in by] if by else [0, 0, 0]
            bc1, bc2, arg = by[:3]
            r.count('superoperators_of_the_optimiser')
            m = D.combine(bc1, arg, bc2, 'A') if which == 1 else D.combine(bc1, 'A', bc2, arg)
            have = D.canon_byte(n) if 0 <= n < 256 else [('NONE', ())]
            ok = m == have or which == 1 and D.byte[bc1] == 'EXT' and m == have
            r.ob(ok)
            if not ok:
                r.violation('superop%d:%d,%d,%d' % (which, bc1, bc2, arg), 'libgst/superop%d.inl' % which,
                            'bytecodes %d and %d with argument %d are replaced by %d ("%s"), they mean "%s"'
                            % (bc1, bc2, arg, n, bcdefs.text(have), bcdefs.text(m)))


def heights(r, D, unit, fn, ix, w):
    H = Heights(w, D)
    for k in range(256):
        if D.byte[k] == 'EXT': continue
        fin, parts, ops = H.expected(k)
        if any(o == 'INVALID' for o, _ in ops): continue
        r.count('bytecode_effects'); ok = True
        # nil at: of the arrays built by { ... }: the verifier follows Array new: n by pushing the array
        array = {'%s' % a[0] for o, a in ops if o == 'SEND_IMMEDIATE'} & {'L', '32'}
        n = 0
        where = '%s:%d (%s)' % ('libgst/%s.c' % unit, w.sw.line, fn)
        jumps = [parts[i + 1] for i, (o, _) in enumerate(ops[:len(parts) - 1]) if 'JUMP' in o or 'RETURN' in o]
        for kind, nv, obs, t in w.effects(k):
            if kind == 'next' and fin is not None:
                n += 1
                dl = observed(add(nv[H.height], sym('phi', H.height), -1), H.unit, H.bp)
                if dl != fin:
                    alt = dict(parts[-2] if len(parts) > 1 else {})
                    alt = bcheight.plus(alt, {1: -1})
                    if array and dl == alt: continue
                    ok = False
                    r.violation('height:%s:%d:%d' % (fn, ix, k), where, 'bytecode %d (%s) changes the stack height by %s, it should by %s'
                                % (k, bcdefs.text(ops), show(dl), show(fin)))
            if not jumps or H.unit != 1: continue
            for ins, vals in obs:
                if ins.op != 'store': continue
                v = vals[0]
                if dict(v[0]).get(('phi', H.height)) != 1: continue
                dl = observed(add(v, sym('phi', H.height), -1), H.unit, H.bp)
                if dl not in jumps and not (dl and ('?',) in dl):
                    ok = False
                    r.violation('target:%s:%d:%d' % (fn, ix, k), where,
                                'bytecode %d (%s): the height recorded for a block that it ends or jumps to is %s, it should be %s'
                                % (k, bcdefs.text(ops), show(dl), show(jumps[0])))
        if fin is not None and not n:
            ok = False
            r.violation('rejected:%s:%d:%d' % (fn, ix, k), where, 'bytecode %d (%s) never continues with the next one' % (k, bcdefs.text(ops)))
        r.ob(ok)


def blockkind(r, D, w):
    """a block that uses self or outer variables is not clean"""
    f = w.f; where = 'libgst/opt.c:%d (%s)' % (w.sw.line, f.name)
    bp = None
    line = [e for e in w.effects(54) if e[0] == 'next']
    for q in w.phis:
        if line and all(add(e[1][q.id], sym('phi', q.id), -1) == bcwalk.const(2) for e in line): bp = q.id
    zero = bcwalk.const(0)
    def after(k, q): return {e[1].get(q) for e in w.effects(k, init={q: zero}) if e[0] == 'next'}
    # the variable that one of the operations on the receiver sets to 1, and line numbers leave at 0
    status = [q.id for q in w.phis if q.id != bp and q.ty == 'i32' and after(54, q.id) == {zero}
              and any(bcwalk.const(1) in after(k, q.id) for k in (56, 35, 39))]
    if len(status) != 1: raise AnalysisBroken('status of the block not recognised in %s' % f.name)
    status = status[0]
    for k in range(256):
        if D.byte[k] == 'EXT': continue
        ops = D.canon_byte(k, (0, 'L'))
        names = [o for o, _ in ops]
        if 'INVALID' in names: continue
        needself = any(o in ('PUSH_SELF', 'PUSH_RECEIVER_VARIABLE', 'STORE_RECEIVER_VARIABLE') for o in names)
        outer = [a for o, a in ops if o in ('PUSH_OUTER_TEMP', 'STORE_OUTER_TEMP')]
        ret = 'RETURN_METHOD_STACK_TOP' in names
        if not (needself or outer or ret): continue
        r.count('bytecodes_that_need_a_context')
        env = {status: bcwalk.const(0)}
        # the answer is read for every number of scopes that the operand can hold up to 4
        ok = True
        for scopes in range(1, 5) if any(a[1] == 'L' for a in outer) else (None,):
            want = 1 if needself else 0
            for a in outer: want = max(want, 1 + (scopes if a[1] == 'L' else a[1]))
            for kind, nv, obs, t in w.effects(k, init=env, operand=None if scopes is None else (bp, scopes)):
                if kind == 'next':
                    v = nv[status]
                    if ret: ok = False; msg = 'a block that returns from its method is not full'
                    elif v[0]: continue
                    elif v[1] < want: ok = False; msg = 'the block is classified %d, it needs at least %d' % (v[1], want)
        r.ob(ok)
        if not ok: r.violation('clean:%d' % k, where, 'bytecode %d (%s): %s' % (k, bcdefs.text(ops), msg))


def selectors(r, p, D):
    h = p.globals.get('_gst_builtin_selectors_hash'); n = p.globals.get('_gst_builtin_selectors_names_contents')
    lt = p.globals.get('lengthtable')
    if not h or not n: raise AnalysisBroken('special selector table not found')
    pool = ''.join(x['s'] if 's' in x else '' for x in n['init']['st'])
    t = stsys.rel(os.path.join(cfront.REPO, CODE)); text = open(os.path.join(cfront.REPO, CODE), errors='replace').read()
    m = re.search(r'class >> specialSelectors \[.*?\^\s*#\((.*?)\)\s*\]', text, re.S)
    na, _ = bcdefs.bytearray_of(os.path.join(cfront.REPO, CODE), 'specialSelectorsNumArgs')
    if not m: raise AnalysisBroken('specialSelectors not found')
    toks = m.group(1).split()
    lib = [None if x == 'nil' else x[1:] for x in toks]
    by = {}
    for ix, e in enumerate(h['init']['arr']):
        off, _, args, bc = e['st'] if 'st' in e else (-1, 0, 0, -1)
        if off in (-1, 0xffffffff): continue
        s = pool[off:pool.index('\0', off)]
        r.count('special_selectors'); ok = True
        where = 'libgst/builtins.inl (%s)' % s
        if bc in by: ok = False; r.violation('selector:twice:%d' % bc, where, 'bytecode %d stands for both #%s and #%s' % (bc, by[bc], s))
        by[bc] = s
        if args != arity(s) and s not in ('|', ','): ok = False; r.violation('selector:args:%s' % s, where, '#%s is sent with %d arguments' % (s, args))
        if lt is not None:
            L = lt['init'].get('s') or lt['init'].get('arr')
            v = ord(L[ix]) if isinstance(L[ix], str) else L[ix]
            if v != len(s): ok = False; r.violation('selector:length:%s' % s, where, 'the length in lengthtable is %d' % v)
        if not 0 <= bc < len(lib) or lib[bc] != s:
            ok = False; r.violation('selector:lib:%d' % bc, '%s (specialSelectors)' % CODE, 'bytecode %d is #%s in C and #%s in the class library' % (bc, s, lib[bc] if 0 <= bc < len(lib) else None))
        elif na[bc] != args:
            ok = False; r.violation('selector:libargs:%d' % bc, '%s (specialSelectorsNumArgs)' % CODE, '#%s takes %d arguments, %d in the class library' % (s, args, na[bc]))
        r.ob(ok)
    for i, s in enumerate(lib):
        if s is not None and i not in by:
            r.violation('selector:only:%d' % i, '%s (specialSelectors)' % CODE, '#%s (bytecode %d) is not a special selector of the virtual machine' % (s, i))
    for n in ('PLUS', 'MINUS'): pass
    return by


SPECIALSEL = {'PLUS': '+', 'MINUS': '-', 'LESS_THAN': '<', 'GREATER_THAN': '>', 'LESS_EQUAL': '<=', 'GREATER_EQUAL': '>=', 'EQUAL': '=',
              'NOT_EQUAL': '~=', 'TIMES': '*', 'DIVIDE': '/', 'REMAINDER': '\\\\', 'BIT_XOR': 'bitXor:', 'BIT_SHIFT': 'bitShift:', 'INTEGER_DIVIDE': '//',
              'BIT_AND': 'bitAnd:', 'BIT_OR': 'bitOr:', 'AT': 'at:', 'AT_PUT': 'at:put:', 'SIZE': 'size', 'CLASS': 'class', 'IS_NIL': 'isNil',
              'NOT_NIL': 'notNil', 'VALUE': 'value', 'VALUE_COLON': 'value:', 'SAME_OBJECT': '==', 'JAVA_AS_INT': 'javaAsInt',
              'JAVA_AS_LONG': 'javaAsLong', 'NEW_COLON': 'new:', 'THIS_CONTEXT': 'thisContext'}


def names(r, D, enums, by):
    single = {}
    for k in range(64):
        ops = D.canon_byte(k)
        if len(ops) == 1 and k >= 28: single[k] = ops[0]
    for k, (op, a) in single.items():
        nm = op
        if op == 'INVALID': continue
        if op == 'SEND': nm = 'SEND_SUPER' if a[1] == 1 else 'SEND'
        elif op == 'SEND_IMMEDIATE': nm = 'SEND_SUPER_IMMEDIATE' if a[1] == 1 else 'SEND_IMMEDIATE'
        if nm not in enums: continue
        r.count('compiler_names'); r.ob(enums[nm] == k)
        if enums[nm] != k: r.violation('name:%s' % nm, 'libgst/byte.h', '%s is %d, byte.def has it at %d' % (nm, enums[nm], k))
    for n, s in SPECIALSEL.items():
        v = enums.get(n + '_SPECIAL')
        if v is None: continue
        r.count('compiler_names'); r.ob(by.get(v) == s)
        if by.get(v) != s: r.violation('special:%s' % n, 'libgst/byte.h', '%s_SPECIAL is %d, which stands for #%s' % (n, v, by.get(v)))
    t = open(os.path.join(cfront.REPO, STCOMP), errors='replace').read()
    for m in re.finditer(r'at: #(\w+) put: (\d+)', t):
        n = STNAME.get(m.group(1), cname(m.group(1)))
        if n is None: continue
        if n not in enums: raise AnalysisBroken('%s: %s has no counterpart in byte.h' % (STCOMP, m.group(1)))
        r.count('smalltalk_compiler_names'); r.ob(enums[n] == int(m.group(2)))
        if enums[n] != int(m.group(2)):
            r.violation('stcomp:%s' % m.group(1), '%s:%d' % (STCOMP, t.count('\n', 0, m.start()) + 1), '%s is %s, %s is %d in byte.h' % (m.group(1), m.group(2), n, enums[n]))
    t = open(os.path.join(cfront.REPO, CODE), errors='replace').read()
    for m in re.finditer(r'\bbyte ==? (\d+)\s+ifTrue:\s*\[\s*\^anObject\s+(\w+)', t):
        op = single.get(int(m.group(1)))
        if op is None: continue
        nm, sel = op[0], m.group(2)
        want = CLIENT.get(nm)
        if want is None: continue
        r.count('decoder_clients'); r.ob(sel == want)
        if sel != want: r.violation('client:%s' % m.group(1), '%s:%d' % (CODE, t.count('\n', 0, m.start()) + 1),
                                    'bytecode %s (%s) is decoded as %s, it should be %s' % (m.group(1), nm, sel, want))


def jumplen(r, p):
    f = p.get('compute_jump_length')
    if f is None or len(f.params) != 1: r.notes.append('compute_jump_length not found: sizes of jumps not decided'); return
    consts = {o for b in f.blocks for i in b if i.op == 'icmp' for o in i.ops if isinstance(o, int)}
    pts = {0} | {c + d for c in consts for d in range(-12, 13)} | {s * (256 ** k) + d for k in (1, 2, 3) for s in (1, -1) for d in range(-12, 13)}
    def at(v):
        s = sccp.SCCP(f, {0: v})
        for b in s.blocks:
            t = f.term(b)
            if t.op == 'ret': return s.get(t.ops[0])
    def size(n):
        k = 2
        while n > 255: n >>= 8; k += 2
        return k
    for v in sorted(pts):
        if v % 2 or abs(v) > 2 ** 30: continue
        r.count('jump_distances')
        if v >= 0:
            L = 0
            for _ in range(8):
                n = at(v + L)
                if not isinstance(n, int): raise AnalysisBroken('compute_jump_length(%d) is not constant' % (v + L))
                if n == L: break
                L = n
            need = size(v); ok = L == need; got = L
        else:
            got = at(v); ok = isinstance(got, int) and size(-v + got) == got; need = size(-v + got) if isinstance(got, int) else None
        r.ob(ok)
        if not ok:
            r.violation('jump:%d' % v, 'libgst/opt.c (compute_jump_length)', 'a jump over %d bytes is given %s bytes, its encoding takes %s' % (v, got, need)); return


def extended(r, p, D):
    """the first bytecode of a pair with a fixed first argument is not extended"""
    n = 0
    for f in p.funcs.values():
        for b in range(len(f.blocks)):
            for i in f.blocks[b]:
                if i.op != 'call' or i.callee != 'search_superop_fixed_arg_1': continue
                base = deref(f, i.ops[0])
                if base is None: continue
                r.count('fixed_argument_pairs'); n += 1
                ok = False
                for bb in range(len(f.blocks)):
                    for c in f.blocks[bb]:
                        if c.op == 'icmp' and c.x in ('eq', 'ne') and 55 in c.ops:
                            o = [x for x in c.ops if x != 55]
                            a = deref(f, o[0]) if o else None
                            if a is None or base[1] - a[1] != 2 or not reaches(f, bb, b): continue
                            # at most one term of the address differs: a field stored and loaded again
                            if len(base[0] - a[0]) <= 1 and len(a[0] - base[0]) <= 1 and len(a[0]) == len(base[0]): ok = True
                r.ob(ok)
                if not ok: r.violation('extended:%s' % f.name, 'libgst/opt.c:%d (%s)' % (i.line, f.name),
                                       'a superoperator with a fixed first argument is chosen without checking that the first bytecode has no extension')
    return n


def rewrites(r, p, D):
    f = p.get('optimize_basic_block')
    if f is None: r.notes.append('optimize_basic_block not found: rewrites not decided'); return
    def show(l): return ' '.join(str(op) if isinstance(op, int) else '?' for op, _ in l) or 'nothing'
    for ok, line, bt, at in peephole.check(f):
        r.count('rewriting_paths'); r.ob(ok)
        if len(bt) != len(at): r.count('shortening_paths')
        if not ok: r.violation('rewrite:%s:%s' % (show(bt), show(at)), 'libgst/opt.c:%d (%s)' % (f.blocks[0][0].line, f.name),
                               'on some path the bytecodes %s become %s, which does not have the same effect' % (show(bt), show(at)))


def emitted(r, p):
    f = p.get('compile_byte')
    if f is None or len(f.params) != 2: r.notes.append('compile_byte not found: encoding of operands not decided'); return
    for v in (0, 1, 127, 128, 255, 256, 257, 0x1234, 0xff00, 0xffff, 0x10000, 0x123456, 0xffffff, 0x1000000, 0x12345678, 0x7fffffff):
        want = []; n = v; b = []
        while True:
            b.append(n & 255); n >>= 8
            if not n: break
        for x in reversed(b[1:]): want += [bcwalk.const(55), bcwalk.const(x)]
        want = tuple(want + [sym('op'), bcwalk.const(b[0])])
        got = peephole.Emit(f, sym('op'), v).bytes()
        if not got: r.notes.append('compile_byte: stores not recognised'); return
        r.count('operand_encodings'); ok = got == {want}; r.ob(ok)
        def show(s): return ' '.join(str(x[1]) if not x[0] else 'OP' for x in s)
        if not ok:
            r.violation('emit:%d' % v, 'libgst/byte.c:%d (compile_byte)' % f.blocks[0][0].line, 'operand %d is written as "%s", it is read back from "%s"'
                        % (v, ' / '.join(map(show, got)), show(want)))


def deref(f, o, depth=0):
    """address of the byte loaded by o, linear over SSA values"""
    d = f.defn(o)
    while d is not None and d.op in ('zext', 'sext', 'freeze'): d = f.defn(d.ops[0])
    if d is None or d.op != 'load': return None
    return linaddr(f, d.ops[0])


def linaddr(f, o, depth=0):
    if isinstance(o, int): return bcwalk.const(o)
    d = f.defn(o) if isinstance(o, str) else None
    if d is None or depth > 12: return sym('v', str(o))
    if d.op == 'gep':
        v = add(linaddr(f, d.x['b'], depth + 1), bcwalk.const(d.x['o']))
        for q, s in d.x['v']: v = add(v, bcwalk.scale(linaddr(f, q, depth + 1), s))
        return v
    if d.op in ('add', 'sub'): return add(linaddr(f, d.ops[0], depth + 1), linaddr(f, d.ops[1], depth + 1), 1 if d.op == 'add' else -1)
    if d.op in ('sext', 'zext', 'freeze', 'trunc'): return linaddr(f, d.ops[0], depth + 1)
    if d.op == 'load': return sym('ld', d.ty, linaddr(f, d.ops[0], depth + 1))
    return sym('v', d.id)


def reaches(f, a, b):
    seen = {a}; todo = [a]
    while todo:
        x = todo.pop()
        if x == b: return True
        for s in f.succs(x):
            if s not in seen: seen.add(s); todo.append(s)
    return False


def disassembler(r, D, p):
    f = p.get(DISASM[1])
    sws = walkers(f)
    if len(sws) != 1: raise AnalysisBroken('%s has %d switches' % (DISASM[1], len(sws)))
    w = bcwalk.Straight(f, sws[0])
    for k in range(256):
        if D.byte[k] == 'EXT': continue
        ops = D.canon_byte(k, (0, 'L'))
        if any(o == 'INVALID' for o, _ in ops): continue
        want = []
        for o, a in ops:
            for j, x in enumerate(a):
                if o in ('SEND', 'SEND_IMMEDIATE') and j == 1: continue
                if o == 'PUSH_SPECIAL' : continue
                if 'JUMP' in o: want.append(('ofs', -1 if o.endswith('BACK') else 1, x)); continue
                if o in ('SEND_ARITH', 'SEND_IMMEDIATE'): want.append(('sel', x)); continue
                if o == 'SEND_SPECIAL': want.append(('sel', x + 16 if isinstance(x, int) else x)); continue
                want.append(('n', x))
        r.count('disassembled'); ok = True
        for kind, nv, obs, t in w.effects(k):
            if kind != 'leave': continue
            have = []
            for ins, vals in obs:
                if ins.op == 'call' and ins.callee and 'printf' in ins.callee: have += [show_arg(w, v) for v in vals]
            for x in want:
                if x in have: have.remove(x)
                else: ok = False; miss = x
        r.ob(ok)
        if not ok: r.violation('print:%d' % k, 'libgst/byte.c:%d (%s)' % (w.sw.line, f.name), 'bytecode %d (%s): operand %s is not printed' % (k, bcdefs.text(ops), miss))


def show_arg(w, v):
    """('n', const or 'L'), ('sel', index), ('ofs', sign, operand) or None"""
    terms = dict(v[0])
    def isarg(t): return t[0] == 'ld' and t[1] == 'i8' and t[2][1] == 1 and dict(t[2][0]) == {('param', 0): 1}
    if not terms: return ('n', v[1])
    if len(terms) == 1:
        (t, c), = terms.items()
        if isarg(t) and c == 1 and v[1] == 0: return ('n', 'L')
        if t == ('param', 1) and c == 1: return ('ofs', 1 if v[1] >= 2 else -1, abs(v[1] - 2))
        if t[0] == 'ld' and t[1] == 'ptr':
            a = t[2]; q = dict(a[0])
            if q.pop(('g', bcheight.BS), 0) == 1:
                off = a[1] - bcheight.SYMBOL
                if not q and off % bcheight.SELSIZE == 0: return ('sel', off // bcheight.SELSIZE)
                if len(q) == 1:
                    (x, cc), = q.items()
                    if isarg(x) and cc == bcheight.SELSIZE and off == 0: return ('sel', 'L')
                    if isarg(x) and cc == bcheight.SELSIZE and off == 16 * bcheight.SELSIZE: return ('sel', 'L')
    if len(terms) == 2 and terms.get(('param', 1)) == 1:
        x = [(t, c) for t, c in terms.items() if t != ('param', 1)][0]
        if isarg(x[0]) and v[1] == 2: return ('ofs', x[1], 'L')
    return None


def check(r):
    D = bcdefs.Defs()
    d = cfront.scratch(); lg = cfront.stage(d)
    _, enums, _ = layout.structures(lg, ('gstpriv.h', 'cint.h', 'byte.h'))
    shutil.rmtree(d, True)
    progs = cfront.unit_irs(('opt', 'sym', 'byte'))
    tables(r, D, enums)
    superops(r, D, progs['opt'])
    for unit, fn, n in WALKERS:
        f = progs[unit].get(fn)
        if f is None: raise AnalysisBroken('no function %s' % fn)
        sws = walkers(f)
        if len(sws) != n: raise AnalysisBroken('%s: %d bytecode switches, %d expected' % (fn, len(sws), n))
        for ix, sw in enumerate(sws): heights(r, D, unit, fn, ix, Walk(f, sw))
    f = progs['opt'].get(BLOCKKIND[1])
    blockkind(r, D, Walk(f, walkers(f)[0]))
    by = selectors(r, progs['sym'], D)
    names(r, D, enums, by)
    jumplen(r, progs['opt'])
    extended(r, progs['opt'], D)
    try: rewrites(r, progs['opt'], D)
    except AnalysisBroken as e: r.notes.append('rewrites of basic blocks not decided: %s' % e)
    emitted(r, progs['byte'])
    disassembler(r, D, progs['byte'])
    for n, m in (('bytecodes_compared', 256), ('superoperators_of_the_class_library', 150), ('superoperators_of_the_optimiser', 150),
                 ('bytecode_effects', 3 * 230), ('bytecodes_that_need_a_context', 20), ('special_selectors', 240), ('compiler_names', 50),
                 ('smalltalk_compiler_names', 30), ('decoder_clients', 14), ('disassembled', 230)):
        r.require(n, m)
    r.rules.append('byte.def, vm.def and bytecodeInfoTable give each bytecode the same sequence of operations and operands; a superoperator of the optimiser means what the pair it replaces means')
    r.rules.append('along every path through the actions of a bytecode, the verifier and the inline-cache layout change the stack height by the sum of the effects of its operations')
    r.rules.append('the peephole optimiser leaves pairs of bytecodes with the effect of those that it replaces (abstract stack machine with symbolic operands); special selectors, arities and opcode names agree between gperf table, byte.h, kernel/CompildCode.st and STCompLit.st; the disassembler prints every operand; jump sizes are those of their encoding; operands are written as the extension bytes that the decoders read')


vp.main('V13', check, explanation=
        'The three descriptions of the 256 bytecodes (byte.def, vm.def, bytecodeInfoTable) are expanded to sequences of operations and compared; '
        'the perfect-hash tables of superoperators and special selectors are read from the compiled constants; the verifier, the stack-position walker, '
        'the block classifier and the disassembler are analysed in LLVM IR: for each bytecode, linear expressions along all paths of its actions.')
