#!/usr/bin/env python3
"""V02: bindings of library code to primitives and C functions."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absrun, vp, cfront, cbind, stsys, sccp
from cfront import AnalysisBroken

# declared type -> LLVM type of the C argument or result
W = {'int': 'i32', 'uInt': 'i32', 'long': 'i64', 'uLong': 'i64', 'longLong': 'i64', 'uLongLong': 'i64', 'short': 'i16',
     'uShort': 'i16', 'char': 'i8', 'uChar': 'i8', 'boolean': 'B', 'string': 'ptr', 'stringOut': 'ptr', 'symbol': 'ptr',
     'symbolOut': 'ptr', 'byteArray': 'ptr', 'byteArrayOut': 'ptr', 'cObject': 'ptr', 'cObjectPtr': 'ptr',
     'smalltalk': 'ptr', 'self': 'ptr', 'selfSmalltalk': 'ptr', 'wstring': 'ptr', 'wstringOut': 'ptr',
     'double': 'double', 'float': 'float', 'longDouble': 'fp80', 'wchar': 'i32', 'unknown': '?', 'variadic': 'V',
     'variadicSmalltalk': 'V', 'void': 'void'}
LOW = {k.lower(): v for k, v in W.items()}
BOOL = ('i1', 'i8', 'i32')
SPECIAL = ('self', 'selfsmalltalk', 'void')
# directories whose C functions are all registered by this tree; elsewhere a
# name may be resolved in a dynamic library
CLOSED = ('kernel', 'packages/sockets', 'packages/opengl', 'packages/glut', 'packages/digest', 'packages/zlib', 'packages/iconv',
          'packages/gdbm', 'packages/xml/expat', 'packages/netlink', 'packages/blox/tk', 'packages/i18n', 'packages/dbd-sqlite')


def ty(n):
    if n.k == 'sym': return W.get(n.value) or LOW.get(n.value.lower()) or 'unknown type #' + n.value
    if n.k in ('binding', 'array', 'litarray', 'send', 'brace', 'var'): return 'ptr'
    return 'unknown type ' + n.k


def same(decl, c): return decl in (c, '?') or (decl == 'B' and c in BOOL)


def bindings(r, p):
    reg = {}
    for n, f, w in cbind.registrations(p): reg.setdefault(n, []).append((p.funcs[f], 'libgst', w))
    r.count('functions_registered_by_the_vm', len(reg))
    for s, c, q in cbind.package_programs():
        k = 0
        for n, f, w in cbind.registrations(q):
            reg.setdefault(n, []).append((q.funcs[f], 'packages/' + s, w)); k += 1
        r.count('functions_registered_by_packages', k); r.count('package_c_files')
    for fs, must in ((stsys.kernel_files(), True), (stsys.package_files(), False)):
        for c, m in stsys.methods_of(fs, must):
            for sel in ('cCall:returning:args:', 'asyncCCall:args:'):
                pr = m.pragma(sel)
                if not pr: continue
                r.count('bindings')
                where = '%s:%d' % (stsys.rel(m.file), m.line)
                d = os.path.dirname(stsys.rel(m.file))
                name = pr[0].value if pr[0].k in ('str', 'sym') else None
                args = pr[-1].a.get('elems')
                if args is None: continue
                key = '%s>>%s' % (c.name + (' class' if m.meta else ''), m.sel)
                ts = [ty(x) for x in args]
                bad = []
                nst = sum(1 for x in args if not (x.k == 'sym' and x.value.lower() in SPECIAL))
                if nst != len(m.args):
                    bad.append('the method has %d argument(s) but the declaration uses %d' % (len(m.args), nst))
                for t in ts:
                    if t.startswith('unknown'): bad.append(t)
                if name not in reg:
                    if any(d == x or d.startswith(x + '/') for x in CLOSED):
                        bad.append('no C function is registered under the name %s' % name)
                    else: r.count('bindings_to_other_libraries')
                else:
                    r.count('bindings_with_prototype')
                    # a package's own registration hides one of the same name elsewhere
                    own = [x for x in reg[name] if d.startswith(x[1])] or reg[name]
                    f = own[0][0]
                    cargs = [(x, t) for x, t in zip(args, ts) if t != 'void']
                    fx = [(x, t) for x, t in cargs if t != 'V']
                    if f.vararg:
                        if len(fx) < len(f.params): bad.append('C takes at least %d argument(s), %d are passed' % (len(f.params), len(fx)))
                    elif len(fx) != len(f.params):
                        bad.append('C function %s takes %d argument(s), %d are passed' % (f.base, len(f.params), len(fx)))
                    else:
                        for k, ((x, t), y) in enumerate(zip(fx, f.params)):
                            if not same(t, y) and not t.startswith('unknown'):
                                bad.append('argument %d is declared %s but C takes %s' % (k + 1, x.value if x.k == 'sym' else 'a CObject', y))
                    if sel[0] == 'c':
                        rt = ty(pr[1])
                        if rt.startswith('unknown'): bad.append(rt)
                        elif rt != 'void' and not same(rt, f.ret):
                            bad.append('the result is declared %s but C returns %s' % (pr[1].value if pr[1].k == 'sym' else 'a CObject', f.ret))
                r.ob(not bad, 1 + len(ts))
                if bad: r.violation('ccall:%s:%s' % (key, name), where, '%s calls %s: %s' % (key, name, '; '.join(bad)))


def primitives(r, p):
    tab = cfront.prim_table(p)
    names = {e['name'] for e in tab.values()}
    for prim, n, c, m in stsys.primitive_attachments():
        r.count('primitive_attachments')
        ok = prim in names if isinstance(prim, str) else prim in tab or not isinstance(prim, int)
        r.ob(ok)
        if not ok:
            k = '%s>>%s' % (c.name + (' class' if m.meta else ''), m.sel)
            r.violation('primitive:%s:%s' % (k, prim), '%s:%d' % (stsys.rel(m.file), m.line), '%s is bound to the primitive %s, which does not exist' % (k, prim))


FFI = {'ffi_type_pointer': ('ptr', 0), 'ffi_type_sint64': ('int', 64), 'ffi_type_uint64': ('int', 64), 'ffi_type_sint32': ('int', 32),
       'ffi_type_uint32': ('int', 32), 'ffi_type_float': ('fp', 'float'), 'ffi_type_double': ('fp', 'double'),
       'ffi_type_longdouble': ('fp', 'fp80'), 'ffi_type_sint16': ('int', 16), 'ffi_type_uint16': ('int', 16),
       'ffi_type_sint8': ('int', 8), 'ffi_type_uint8': ('int', 8), 'ffi_type_void': ('void', 0)}


def fits(decl, ffi):
    """does the libffi type carry the declared C type (integers are promoted)"""
    k, w = FFI.get(ffi, (None, 0))
    t = W[decl]
    if t == 'ptr': return k == 'ptr' or (k == 'int' and w == 64)
    if t == 'B': return k == 'int' and w <= 32
    if t[:1] == 'i': return k == 'int' and w == max(32, int(t[1:]))
    if t == 'void': return True
    return k == 'fp' and w == t


def marshalling(r, p):
    """each declared type is converted as the C type of that name"""
    names = enum_order(r)
    gf = p.get('get_ffi_type'); to = p.get('smalltalk_to_c'); fr = p.get('c_to_smalltalk')
    # a struct return of the libffi type through a pointer
    def ffi_at(s, f):
        out = set()
        for b in s.blocks:
            t = f.term(b)
            if t.op != 'ret' or not t.ops: continue
            todo = [t.ops[0]]; seen = set()
            while todo:
                o = todo.pop()
                if isinstance(o, dict): out.add(o.get('g')); continue
                d = f.defn(o)
                if d is None or d.id in seen: out.add(str(o)) if d is None else 0; continue
                seen.add(d.id)
                if d.op == 'phi': todo += [v for pb, v in zip(d.x, d.ops) if (pb, d.bb) in s.edges]
                elif d.op == 'select': todo += d.ops[1:]
                else: out.add('%' + str(d.id))
        return out
    def tagged(f, k, code): return {i.id: 2 * code + 1 for i in f.instrs() if i.op == 'ptrtoint' and f.param(i.ops[0]) == k}
    for code, n in sorted(names.items()):
        if n in ('variadic', 'variadicSmalltalk', 'self', 'selfSmalltalk', 'unknown'): continue
        # results and callback arguments: the libffi type
        s = sccp.SCCP(gf, tagged(gf, 0, code))
        fs = {x for x in ffi_at(s, gf) if x}
        r.count('marshalling_cases')
        if not fs: raise AnalysisBroken('get_ffi_type: no type found for #%s' % n)
        for x in fs:
            if x not in FFI: continue
            ok = fits(n, x); r.ob(ok)
            if not ok: r.violation('marshal:get_ffi_type:%s' % n, '%s:%d' % (gf.file, gf.line), 'a C value declared #%s is transferred as %s' % (n, x))
        # arguments
        s = sccp.SCCP(to, {2: code})
        for st, x, i in stored(to, s):
            if x == 'null' or x not in FFI: continue
            if st is None: continue
            k, w = FFI[x]
            okx = fits(n, x)
            oks = st[0] == 'ptr' or st[0] == 'i64' if k == 'ptr' else int(st[0][1:]) >= w if k == 'int' and st[0][:1] == 'i' else st[0] == w
            ext = st[1]
            t = W[n]
            oke = True
            if k == 'int' and t[:1] == 'i' and ext and ext[0] != 'i64' and n not in ('wchar',):
                uns = n[:1] == 'u'
                oke = (ext[1] == 'zext') == uns and ext[0] == t or ext[0] == 'i1' or n == 'char' and ext[0] in ('i8', 'i32') or n == 'uChar' and ext[0] == 'i32'
            r.count('marshalling_cases'); r.ob(okx and oks and oke)
            if not okx: r.violation('marshal:argument-type:%s:%s' % (n, x), i.loc(), 'an argument declared #%s is passed as %s' % (n, x))
            elif not oks: r.violation('marshal:argument-value:%s:%s' % (n, st[0]), i.loc(), 'an argument declared #%s is passed as %s but stored as %s' % (n, x, st[0]))
            elif not oke: r.violation('marshal:argument-sign:%s' % n, i.loc(), 'an argument declared #%s is converted with %s from %s' % (n, ext[1], ext[0]))
        # results
        s = sccp.SCCP(fr, tagged(fr, 2, code))
        t = W[n]
        if t in ('void',): continue
        ld = {}
        for b in s.blocks:
            for i in fr.blocks[b]:
                if i.op == 'load' and fr.param(i.ops[0]) == 0: ld[i.id] = i.ty
        if not ld: continue          # not supported as a result: reported at run time
        want = {t} if t in ('float', 'double', 'fp80', 'ptr') else {'i64', 'i32', t} if t != 'B' else {'i64', 'i32'}
        if t == 'i64': want = {'i64'}
        for b in s.blocks:
            for i in fr.blocks[b]:
                if i.id in ld:
                    ok = i.ty in want; r.ob(ok); r.count('marshalling_cases')
                    if not ok: r.violation('marshal:result:%s:%s' % (n, i.ty), i.loc(), 'a result declared #%s is read as %s' % (n, i.ty))
                if t[:1] == 'i' and i.op in ('sext', 'zext') and n not in ('char', 'uChar', 'wchar'):
                    a = fr.defn(i.ops[0])
                    if a is not None and a.op == 'trunc' and fr.defn(a.ops[0]) is not None and fr.defn(a.ops[0]).id in ld:
                        ok = a.ty == t and (i.op == 'zext') == (n[:1] == 'u'); r.ob(ok)
                        if not ok: r.violation('marshal:result-sign:%s' % n, i.loc(), 'a result declared #%s is converted with %s from %s' % (n, i.op, a.ty))
                if t == 'i64' and i.op == 'call' and i.callee in p.funcs and not p.funcs[i.callee].decl:
                    for k, o in enumerate(i.ops):
                        d = fr.defn(o)
                        if d is None or d.id not in ld: continue
                        sg = signs(p.funcs[i.callee], k)
                        ok = not sg or ('u' in sg) == (n[:1] == 'u'); r.ob(ok); r.count('marshalling_cases')
                        if not ok: r.violation('marshal:result-convert:%s' % n, i.loc(), 'a result declared #%s is converted by %s, which treats it as %s' % (n, p.funcs[i.callee].base, 'unsigned' if 'u' in sg else 'signed'))
                if t == 'i64' and i.op == 'trunc' and fr.defn(i.ops[0]) is not None and fr.defn(i.ops[0]).id in ld:
                    r.ob(False); r.violation('marshal:result-trunc:%s' % n, i.loc(), 'a result declared #%s is truncated to %s' % (n, i.ty))
    r.require('marshalling_cases', 80)
    # storage size of each type
    sz = [f for f in p.by_base('_gst_c_type_size') if not f.decl and len(f.params) == 1]
    for f in sz:
        for code, n in sorted(names.items()):
            t = W[n]
            want = {'ptr': 8, 'float': 4, 'double': 8, 'fp80': 16, 'void': 0}.get(t) or (int(t[1:]) // 8 if t[:1] == 'i' else None)
            if want is None or n in ('selfSmalltalk', 'self', 'variadic', 'variadicSmalltalk', 'unknown'): continue
            got = {v for v, m, st in absrun.AbsRun(p, Pure()).run(f.name, [code]) if v is not None}
            bad = {v for v in got if v not in (0, want)}
            r.count('marshalling_cases'); r.ob(not bad)
            if bad: r.violation('marshal:size:%s' % n, '%s:%d' % (f.file, f.line), '%s answers %s for #%s, whose size is %d' % (f.base, sorted(bad), n, want))
    # every type that can be declared for an argument is accepted for some object
    for code, n in sorted(names.items()):
        if n in ('variadic', 'variadicSmalltalk', 'self', 'selfSmalltalk', 'unknown', 'void', 'symbolOut') or len(to.params) != 3: continue
        res = absrun.AbsRun(p, Pure()).run(to.name, [('p', 'theoop', 0), ('p', 'cp', 0), code])
        ok = any(v != 0 for v, m, st in res)
        r.count('marshalling_cases'); r.ob(ok)
        if not ok: r.violation('marshal:refused:%s' % n, '%s:%d' % (to.file, to.line), '%s refuses every object for an argument declared #%s' % (to.base, n))


class Pure(absrun.Model):
    """helpers that are given the type are followed"""
    def call(self, f, i, args, mem, st):
        return 'follow' if any(isinstance(a, int) for a in args) and any(isinstance(a, tuple) and a[1] == 'cp' for a in args) else None


def signs(f, k):
    """signedness of the comparisons made on parameter k"""
    out = set()
    for i in f.instrs():
        if i.op == 'icmp' and i.x not in ('eq', 'ne') and any(f.param(o) == k for o in i.ops): out.add(i.x[0])
    return out


def stored(f, s):
    """(store type, ...) of the union member reaching each return, with the libffi type returned there"""
    def off(o):
        """offset from parameter 1, or None"""
        k = 0
        while True:
            if f.param(o) == 1: return k
            d = f.defn(o)
            if d is None or d.op != 'gep' or d.x['v']: return None
            k += d.x['o']; o = d.x['b']
    ext = {}
    IN = {0: frozenset([None])}; todo = [0]
    def step(b, st):
        for i in f.blocks[b]:
            if i.op == 'store' and off(i.ops[1]) == 0:
                v = f.defn(i.ops[0]); e = None
                ty_ = oty(f, i.ops[0])
                while v is not None and v.op in ('sext', 'zext'):
                    e = (oty(f, v.ops[0]), v.op); v = f.defn(v.ops[0])
                st = frozenset([(ty_, e, i.id)])
            elif i.op == 'call' and any(off(o) is not None for o in i.ops if isinstance(o, str)) and not (i.callee or '').startswith('llvm.memset'):
                st = frozenset([None])
        return st
    def oty(f, o):
        if o == 'null': return 'ptr'
        d = f.defn(o)
        if d is not None: return d.ty
        k = f.param(o)
        return f.params[k] if k is not None else 'ptr' if isinstance(o, dict) else 'i64'
    while todo:
        b = todo.pop()
        o = step(b, IN[b])
        for t in f.succs(b):
            if (b, t) not in s.edges: continue
            n = IN.get(t, frozenset()) | o
            if n != IN.get(t): IN[t] = n; todo.append(t)
    out = []
    # pair the stores with the values returned, edge by edge
    for b in s.blocks:
        t = f.term(b)
        if t.op != 'ret': continue
        o = t.ops[0]; d = f.defn(o)
        if d is not None and d.op == 'phi' and d.bb == b:
            prs = [(v, step(pb, IN.get(pb, frozenset([None])))) for pb, v in zip(d.x, d.ops) if (pb, b) in s.edges]
        else: prs = [(o, step(b, IN.get(b, frozenset([None]))))]
        for v, sts in prs:
            x = v.get('g') if isinstance(v, dict) else str(v)
            for st in sts:
                i = f.ins[st[2]] if st else t
                out.append((st[:2] if st else None, x, i))
    return out


def enum_order(r):
    """code -> declared type name, agreeing between cint.h, cint.c and CCallable"""
    src = open(os.path.join(cfront.REPO, 'libgst/cint.h')).read()
    src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
    src = re.sub(r'//[^\n]*|^\s*#[^\n]*', '', src, flags=re.M)
    m = re.search(r'enum\s+\w*\s*\{([^}]*\bCDATA_CHAR\b[^}]*)\}', src)
    if not m: raise AnalysisBroken('the enumeration of C types was not found in cint.h')
    cs = {}; v = -1
    for e in m.group(1).split(','):
        e = e.strip()
        if not e: continue
        n, _, x = e.partition('=')
        v = int(x, 0) if x else v + 1
        cs[v] = n.strip()
    st = None
    for c, me in stsys.methods_of([os.path.join(cfront.REPO, 'kernel/CCallable.st')]):
        if me.sel == 'returnTypeMap':
            for n in stsys.stparse.walk(me.body):
                if n.k == 'litarray': st = [x.value for x in n.elems]; break
    if not st: raise AnalysisBroken('CCallable class>>returnTypeMap was not found')
    def norm(s):
        s = s[6:] if s.startswith('CDATA_') else s
        s = s.replace('_', '').lower()
        return {'oop': 'smalltalk', 'variadicoop': 'variadicsmalltalk', 'selfoop': 'selfsmalltalk'}.get(s, s)
    out = {}
    for k in range(max(len(st), len(cs))):
        a = st[k] if k < len(st) else None
        b = cs.get(k)
        ok = a is not None and b is not None and norm(a) == norm(b)
        r.count('type_codes'); r.ob(ok)
        if not ok: r.violation('typemap:%d' % k, 'kernel/CCallable.st', 'code %d is #%s in CCallable class>>returnTypeMap and %s in cint.h' % (k, a, b))
        elif a in W: out[k] = a
    r.require('type_codes', 30)
    return out


def check(r):
    p = cfront.load_vm()
    bindings(r, p); primitives(r, p); marshalling(r, p)
    r.require('functions_registered_by_the_vm', 90)
    r.require('functions_registered_by_packages', 230)
    r.require('bindings', 900)
    r.require('bindings_with_prototype', 370)
    r.require('primitive_attachments', 300)
    r.rules = ['a <cCall:...> method has one argument per declared argument other than #self, #selfSmalltalk and #void',
               'the C function registered under the name takes exactly these arguments, each of the declared width and kind',
               'the declared result has the width and kind of the C result, or is #void',
               'in kernel/ and in packages that bring their own module, every name is registered',
               'every <primitive:> names an entry of the primitive table',
               'type codes agree between cint.h and CCallable; conversions to and from C use the width, kind and signedness of the declared type']


vp.main('V02', check, explanation='Parses every binding of kernel/ and packages/, reads the registrations and prototypes from the LLVM IR of libgst and of the packages\' C modules, and evaluates the marshalling functions for every type code by conditional constant propagation.',
        trusted=['clang 18 front end', 'stparse', 'names resolved in external dynamic libraries (ncurses, cairo, SDL, gtk, libpq) are not decided'])
