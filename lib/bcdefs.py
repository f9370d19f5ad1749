"""The bytecode tables of the sources: what each of the 256 bytecodes does, as
the decoder of the C tools (byte.def), the interpreter (vm.def) and the class
library (CompildCode.st) state it.

A meaning is a list of (operation, operands); operations carry the names of
byte.def, operands are integers or expressions over ARG, the (possibly
extended) argument of the bytecode: 'A', 'A>>8', 'A&255'."""
import os, re
from cfront import REPO, AnalysisBroken

NOARG = {'PUSH_SELF', 'POP_STACK_TOP', 'MAKE_DIRTY_BLOCK', 'RETURN_METHOD_STACK_TOP', 'RETURN_CONTEXT_STACK_TOP',
         'DUP_STACK_TOP', 'EXIT_INTERPRETER'}


def read(p):
    with open(os.path.join(REPO, p), errors='replace') as f: return f.read()


def strip(t): return re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)


def operand(e, arg):
    """arg: ('A',) or (hi, lo)"""
    e = re.sub(r'\s+', '', e)
    while e.startswith('(') and e.endswith(')'): e = e[1:-1]
    if re.fullmatch(r'-?\d+', e): return int(e)
    hi, lo, whole = ('A>>8', 'A&255', 'A') if arg is None else (arg[0], arg[1], None)
    if whole is None:
        if isinstance(hi, int) and isinstance(lo, int): whole = hi * 256 + lo
        elif hi == 0: whole = lo
        else: whole = '%s*256+%s' % (hi, lo)
    if e in ('arg>>8',): return hi
    if e in ('arg_lsb', 'arg&255'): return lo
    if e in ('arg|arg_lsb', 'arg'): return whole
    return '?' + e


class Defs:
    def __init__(self):
        self.bytedef(); self.vmdef()

    # -- byte.def
    def bytedef(self):
        t = strip(read('libgst/byte.def'))
        self.sigs = {}
        for m in re.finditer(r'^\s*([A-Z_]+)\s*(?:\(([^)]*)\))?\s*;', t[:t.index('{')], re.M):
            self.sigs[m.group(1)] = [x.strip() for x in (m.group(2) or '').split(',') if x.strip()]
        self.byte = {}
        for m in re.finditer(r'^\s*(\d+)(?:\s*\.\.\s*(\d+))?\s*\{(.*?)\}', t, re.M | re.S):
            lo = int(m.group(1)); hi = int(m.group(2) or lo)
            body = m.group(3); ops = []; ext = False
            for s in body.split(';'):
                s = s.strip()
                if not s or s.startswith('extract'): continue
                d = re.fullmatch(r'dispatch\s+([A-Z_]+)\s*(?:\((.*)\))?', s, re.S)
                if d:
                    args = [x for x in (d.group(2) or '').split(',') if x.strip()]
                    ops.append((d.group(1), args))
                elif re.sub(r'\s', '', s) == 'arg=(arg|arg_lsb)<<8': ext = True
                elif s == 'continue': ext = ext and 'c'
                elif s == 'break': pass
                else: raise AnalysisBroken('byte.def: statement %r not understood' % s)
            for k in range(lo, hi + 1): self.byte[k] = 'EXT' if ext == 'c' else ops
        if len(self.byte) != 256: raise AnalysisBroken('byte.def: %d bytecodes' % len(self.byte))

    def canon_byte(self, k, arg=None):
        b = self.byte[k]
        if b == 'EXT': return [('EXT_BYTE', ())]
        out = []
        for name, args in b:
            if name in ('JUMP', 'POP_JUMP_TRUE', 'POP_JUMP_FALSE'):
                e = re.sub(r'\s+', '', args[0])
                m = re.fullmatch(r'IP-IP0([+-])\(?(arg\|arg_lsb|arg|\d+)\)?', e)
                if not m: out.append((name, ('?' + e,))); continue
                n = operand(m.group(2), arg)
                if m.group(1) == '-': name = 'JUMP_BACK' if name == 'JUMP' else name + '_BACK'
                out.append((name, (n,)))
            elif name == 'INVALID': out.append(('INVALID', ()))
            else: out.append((name, tuple(operand(a, arg) for a in args)))
        return out

    # -- vm.def
    def vmdef(self):
        t = strip(read('libgst/vm.def'))
        self.vmops = {}
        for m in re.finditer(r'^operation\s+([A-Z_]+)\s+([^({]*)\(([^)]*?)--([^)]*)\)', t, re.M):
            self.vmops[m.group(1)] = (m.group(2).split(), m.group(3).split(), m.group(4).split())
        i = t.find('table normal_byte_codes')
        if i < 0: raise AnalysisBroken('vm.def: no normal_byte_codes table')
        self.vm = {}
        for m in re.finditer(r'(\d+)\s*=\s*bytecode\s+(\w+)\s*\{(.*?)\}', t[i:], re.S):
            ops = []
            for s in m.group(3).split(';'):
                s = s.strip()
                if not s: continue
                d = re.fullmatch(r'([A-Z_]+)\s*\((.*)\)', s, re.S)
                if not d: raise AnalysisBroken('vm.def: statement %r not understood' % s)
                ops.append((d.group(1), [x for x in d.group(2).split(',') if x.strip()]))
            self.vm[int(m.group(1))] = ops
        if len(self.vm) != 256: raise AnalysisBroken('vm.def: %d bytecodes' % len(self.vm))

    def canon_vm(self, k, special):
        """special: {name of a special operation: its bytecode}"""
        out = []
        for name, args in self.vm[k]:
            if name in ('PREFETCH', 'ADVANCE'): continue
            a = tuple(operand(x, None) for x in args)
            if name in special: name, a = ('SEND_ARITH', (special[name],)) if special[name] < 16 else ('SEND_SPECIAL', (special[name] - 16,))
            elif name in ('SEND', 'SEND_SUPER'): name, a = 'SEND', (a[0], int(name == 'SEND_SUPER'), a[1])
            elif name in ('SEND_IMMEDIATE', 'SEND_SUPER_IMMEDIATE'): a = (a[0], int(name == 'SEND_SUPER_IMMEDIATE')); name = 'SEND_IMMEDIATE'
            elif name == 'LINE_NUMBER_BYTECODE': a = ('A?',)
            elif name == 'INVALID': a = ()
            out.append((name, a))
        return out

    # -- superoperators
    def combine(self, bc1, arg1, bc2, arg2):
        """meaning of bc1 with argument arg1 followed by bc2 with arg2; arg: 'A' or an integer"""
        if self.byte[bc1] == 'EXT':
            return self.instantiate(bc2, (arg1, arg2))
        return self.instantiate(bc1, arg1) + self.instantiate(bc2, arg2)

    def instantiate(self, bc, arg):
        if self.byte[bc] == 'EXT': return [('EXT_BYTE', ())]
        if isinstance(arg, tuple): a = arg
        elif isinstance(arg, int): a = (arg >> 8, arg & 255)
        else: a = None
        return self.canon_byte(bc, a)


def same(m1, m2):
    """equal meanings: the argument of the line number operation is not compared with the interpreter"""
    if len(m1) != len(m2): return False
    for (n1, a1), (n2, a2) in zip(m1, m2):
        if n1 != n2: return False
        if n1 == 'LINE_NUMBER_BYTECODE' and 'A?' in a1 + a2: continue
        if a1 != a2: return False
    return True


def text(m): return '; '.join('%s(%s)' % (n, ', '.join(map(str, a))) if a else n for n, a in m)


def bytearray_of(path, selector):
    t = read(path)
    m = re.search(r'class\s*>>\s*%s\s*\[(.*?)\^\s*#\[([\d\s]*)\]' % re.escape(selector), t, re.S)
    if not m: raise AnalysisBroken('%s: %s not found' % (path, selector))
    return [int(x) for x in m.group(2).split()], t.count('\n', 0, m.start(2)) + 1
