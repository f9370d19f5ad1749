"""V12: C and Smalltalk agree on the layout of shared objects."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import cfront, layout, stsys, stworld, vp
from cbind import gstr
from cfront import AnalysisBroken
from stparse import Node, walk

# C structure -> class variable, where the names do not follow gst_X / _gst_X_class
STRUCT = {'gst_ctype': 'c_type', 'gst_cobject': 'c_object', 'gst_boolean': 'true',
          'gst_c_callable': 'c_callback_descriptor', 'gst_context_part': 'method_context', 'gst_character': None, 'gst_object_header': None, 'gst_lookahead': None,
          'gst_parser': None, 'gst_undefined_object': 'undefined_object'}
# value accessors of immediate contents: not instance variables
ANON = {'gst_floatd', 'gst_floate', 'gst_floatq', 'gst_string', 'gst_symbol', 'gst_unicode_string', 'gst_byte_array'}
# bit fields of the headers and the methods that answer them
ACCESS = {'CompiledMethod': ('method_header', {'flags': 'headerFlag', 'primitive': 'primitiveIndex', 'isOldSyntax': 'isOldSyntax',
                                               'numArgs': 'numArgs', 'numTemps': 'numTemps', 'stackDepth': 'stack_depth'}),
          'CompiledBlock': ('block_header', {'flags': 'clean', 'numArgs': 'numArgs', 'numTemps': 'numTemps', 'stackDepth': 'depth'})}
MCF = {'isDisabled': 'MCF_IS_DISABLED_CONTEXT', 'isUnwind': 'MCF_IS_UNWIND_CONTEXT',
       'isEnvironment': 'MCF_IS_EXECUTION_ENVIRONMENT'}
CTYPE = {'CChar': 'CDATA_CHAR', 'CUChar': 'CDATA_UCHAR', 'CShort': 'CDATA_SHORT', 'CUShort': 'CDATA_USHORT', 'CLong': 'CDATA_LONG',
         'CULong': 'CDATA_ULONG', 'CFloat': 'CDATA_FLOAT', 'CDouble': 'CDATA_DOUBLE', 'CString': 'CDATA_STRING',
         'CSmalltalk': 'CDATA_OOP', 'CInt': 'CDATA_INT', 'CUInt': 'CDATA_UINT', 'CLongDouble': 'CDATA_LONG_DOUBLE',
         'CLongLong': 'CDATA_LONGLONG', 'CULongLong': 'CDATA_ULONGLONG'}
SHAPE = {'int8': 'GST_ISP_SCHAR', 'byte': 'GST_ISP_UCHAR', 'character': 'GST_ISP_CHARACTER', 'short': 'GST_ISP_SHORT',
         'ushort': 'GST_ISP_USHORT', 'int': 'GST_ISP_INT', 'uint': 'GST_ISP_UINT', 'float': 'GST_ISP_FLOAT', 'int64': 'GST_ISP_INT64',
         'uint64': 'GST_ISP_UINT64', 'double': 'GST_ISP_DOUBLE', 'utf32': 'GST_ISP_UTF32', 'pointer': 'GST_ISP_POINTER',
         'word': 'GST_ISP_ULONG', None: 'GST_ISP_FIXED'}


def norm(n):
    n = n.replace('_', '').lower()
    return n[:-3] if n.endswith('oop') else n


def ints(n):
    """every (header bitShift: -s) bitAnd: m / header bitAnd: m below n"""
    for x in walk(n):
        if x.k == 'send' and x.sel == 'bitAnd:' and x.args[0].k == 'num':
            r = x.rcv; s = 0
            while r.k == 'paren': r = r.value
            if r.k == 'send' and r.sel == 'bitShift:' and const(r.args[0]) is not None:
                s = -const(r.args[0]); r = r.rcv
            while r.k == 'paren': r = r.value
            if r.k == 'var': yield r.name, s, x.args[0].value, x.line


def const(n):
    if n.k == 'num': return n.value
    return None


def check_struct(r, s, fs, cn, k, names, enums, kw, pre):
    hdr = 2; word = enums.get('SIZEOF_OOP', 8) * 8
    for j, (fn, off, bits, arr) in enumerate(fs[hdr:]):
        if off % word:
            r.violation('field:%s%s.%s' % (pre, s, fn), 'struct %s' % s, 'field %s is not at a word boundary' % fn); continue
        ix = off // word - hdr
        if arr and ix == len(names): r.ob(); continue
        r.count('fields_compared')
        if ix >= len(names):
            r.violation('field:%s%s.%s' % (pre, s, fn), 'struct ' + s, 'field %s has index %d, %s has only %d variables' % (fn, ix, cn, len(names)))
            continue
        if bits > word:
            r.violation('field:%s%s.%s' % (pre, s, fn), 'struct ' + s, 'field %s covers more than one variable' % fn); continue
        at = [q for q, z in enumerate(names) if norm(z) == norm(fn)]
        if at and ix not in at:
            r.violation('field:%s%s.%s' % (pre, s, fn), kw, 'the virtual machine accesses %s of %s as field %d (which is %s); it is variable %d'
                        % (fn, cn, ix, names[ix], at[0]))
        else: r.ob()
    last = [f for f in fs if f[3]]
    if last and last[-1][1] // word - hdr != len(names):
        r.violation('tail:%s%s' % (pre, s), kw, 'the indexed part of %s starts at variable %d for the virtual machine, the class has %d variables'
                    % (s, last[-1][1] // word - hdr, len(names)))


def check(r):
    d = cfront.scratch(); lg = cfront.stage(d)
    structs, enums, macros = layout.structures(lg)
    p = cfront.load_vm()
    w = stworld.kernel()
    if w.unresolved: raise AnalysisBroken('kernel: %s' % (w.unresolved[:3],))
    ci = [g for n, g in p.globals.items() if g.get('aelt') == 'struct.class_definition' and 'init' in g]
    if len(ci) != 1: raise AnalysisBroken('class definition table not found')
    byvar = {}; chain = {}
    # 1. the class table against itself and against the kernel sources
    for e in ci[0]['init']['arr']:
        var, sup, spec, _reload, n, name, iv, cv, pools = e['st']
        name = gstr(p, name); iv = (gstr(p, iv) or '').split()
        var = var['g']; sup = sup['g'] if isinstance(sup, dict) else None
        where = 'libgst/dict.c (class_info %s)' % name
        byvar[var] = name
        r.count('classes_defined_by_the_vm')
        if len(iv) != n:
            r.violation('count:' + name, where, '%s is declared with %d fields but has %d variable names' % (name, n, len(iv)))
        else: r.ob()
        k = w.find(name)
        chain[name] = (byvar.get(sup), iv)
        if k is None: r.count('classes_without_kernel_source'); continue
        kw = '%s:%d' % (stsys.rel(k.file), k.line)
        # same variables at the same places
        if len(iv) != len(k.ivars):
            r.violation('ivars:' + name, kw, '%s: the virtual machine creates %s, the kernel sources declare %s' % (name, iv, k.ivars))
        else: r.ob()
        for j, v in enumerate(iv):
            if v in k.ivars and k.ivars.index(v) != j:
                r.violation('ivar:%s.%s' % (name, v), kw, '%s is variable %d of %s for the virtual machine and %d in the kernel sources'
                            % (v, j, name, k.ivars.index(v)))
            else: r.ob()
        # superclass
        if sup and sup in byvar:
            if k.sup is None or k.sup.name != byvar[sup]:
                r.violation('super:' + name, kw, '%s is a subclass of %s for the virtual machine and of %s in the kernel sources'
                            % (name, byvar[sup], k.sup))
            else: r.ob()
        elif sup == '_gst_nil_oop' and k.sup is not None:
            r.violation('super:' + name, kw, '%s has superclass %s in the kernel sources' % (name, k.sup))
        # shape
        sh = k.shape()
        want = enums.get(SHAPE.get(sh, '?'))
        if want is None: raise AnalysisBroken('shape %r of %s' % (sh, name))
        if want & enums['ISP_INDEXEDVARS'] != spec & enums['ISP_INDEXEDVARS']:
            r.violation('shape:' + name, kw, '%s is created with shape code %d, the kernel sources say #%s (%d)' % (name, spec, sh, want))
        else: r.ob()
    # 2. C structures against the instance variables, inherited ones included
    for s, fs in sorted(structs.items()):
        if not s.startswith('gst_') or not fs or fs[0][0] != 'objSize': continue
        v = STRUCT.get(s, s[4:])
        if v is None or s in ANON: continue
        cn = byvar.get('_gst_%s_class' % v)
        if cn is None:
            if v + '_class' and ('_gst_%s_class' % v) not in p.globals and s not in STRUCT: continue
            raise AnalysisBroken('class of struct %s not known' % s)
        k = w.find(cn)
        if k is None: raise AnalysisBroken('no kernel source for ' + cn)
        # as created by the virtual machine, and as the kernel sources declare it
        vm = []; c = cn
        while c: vm = chain[c][1] + vm; c = chain[c][0]
        check_struct(r, s, fs, cn, k, vm, enums, 'libgst/dict.c (class_info %s)' % cn, 'vm:')
        names = k.all_ivars()
        check_struct(r, s, fs, cn, k, names, enums, '%s:%d' % (stsys.rel(k.file), k.line), '')
        r.count('structures_compared')
    # 3. header words of code objects
    for cn in ('CompiledCode', 'CompiledMethod', 'CompiledBlock'):
        k = w.find(cn)
        for m in list(k.methods.values()):
            for var, s, mask, line in ints(m.body):
                if var != 'header' or not isinstance(mask, int): continue
                r.count('header_accesses')
                cand = [ACCESS[cn]] if cn in ACCESS else [ACCESS['CompiledMethod'], ACCESS['CompiledBlock']]
                ok = False
                for st, acc in cand:
                    f = [x for x in structs[st] if x[1] - 1 == s and (1 << x[2]) - 1 == mask]
                    if f and (m.sel not in acc or acc[m.sel] == f[0][0]): ok = True
                wh = '%s:%d' % (stsys.rel(m.file), line)
                if not ok:
                    r.violation('header:%s>>%s:%d:%d' % (cn, m.sel, s, mask), wh,
                                '%s>>%s reads bits %d.. (mask %d) of the header, which is not %s of the C header word'
                                % (cn, m.sel, s, mask, 'the field ' + ACCESS[cn][1][m.sel] if cn in ACCESS and m.sel in ACCESS[cn][1] else 'a field'))
                else: r.ob()
        if cn in ACCESS:
            for sel in ACCESS[cn][1]:
                if sel not in k.methods: raise AnalysisBroken('%s>>%s not found' % (cn, sel))
    k = w.find('CompiledCode')
    # scale of the stack depth
    scale = int(macros.get('DEPTH_SCALE', '2').split()[0])
    for cn in ACCESS:
        m = w.find(cn).methods['stackDepth']
        mul = [x.args[0].value for x in walk(m.body) if x.k == 'send' and x.sel == '*' and x.args[0].k == 'num'] \
            + [1 << x.args[0].value for x in walk(m.body) if x.k == 'send' and x.sel == 'bitShift:' and x.args[0].k == 'num' and x.args[0].value > 0]
        if mul != [1 << scale]:
            r.violation('depth:' + cn, '%s:%d' % (stsys.rel(m.file), m.line), '%s>>stackDepth scales by %s, the virtual machine by %d' % (cn, mul, 1 << scale))
        else: r.ob()
    # 4. context flags
    for sel, mac in MCF.items():
        v = int(macros[mac]) >> 1
        for cn in ('MethodContext', 'BlockContext'):
            m = w.find(cn).methods.get(sel)
            if m is None: continue
            for x in walk(m.body):
                c = None
                if x.k == 'send' and x.sel in ('bitAnd:', '==', '=') and x.args[0].k == 'num': c = x.args[0].value
                if c is None: continue
                r.count('context_flags')
                if c != v and not (x.sel in ('==', '=') and c == 0):
                    r.violation('flag:%s>>%s' % (cn, sel), '%s:%d' % (stsys.rel(m.file), x.line), '%s>>%s tests flag %s, %s is %d' % (cn, sel, c, mac, v))
                else: r.ob()
    # 5. instance specification
    b = w.find('Behavior')
    nf = enums['ISP_NUMFIXEDFIELDS'] - 1
    for m in list(b.methods.values()):
        for x in walk(m.body):
            if x.k != 'send' or x.sel not in ('bitShift:',): continue
            c = const(x.args[0])
            if isinstance(c, int) and abs(c) > 5:
                r.count('instance_spec_shifts')
                if abs(c) != nf: r.violation('spec:Behavior>>%s' % m.sel, '%s:%d' % (stsys.rel(m.file), x.line), 'shift by %d, the number of fields is at bit %d' % (c, nf))
                else: r.ob()
    m = b.methods.get('shapes')
    lits = [x for x in walk(m.body) if x.k == 'litarray'] if m else []
    if not lits: raise AnalysisBroken('Behavior>>shapes not recognised')
    for j, x in enumerate(lits[0].elems):
        if x.k == 'sym':
            r.count('shape_codes')
            want = (enums[SHAPE[x.value]] & enums['ISP_SHAPE']) >> 1 if x.value in SHAPE else None
            if want != j: r.violation('shapecode:' + x.value, '%s:%d' % (stsys.rel(m.file), m.line), '#%s has code %d, the virtual machine uses %s' % (x.value, j, want))
            else: r.ob()
    if len(lits[0].elems) != 16: r.violation('shapes', stsys.rel(m.file), 'there are 16 shape codes, Behavior>>shapes has %d' % len(lits[0].elems))
    # 6. codes of C types
    for cn, en in CTYPE.items():
        k = w.find(cn)
        if k is None: continue
        for meta, tab in ((True, k.cmethods), (False, k.methods)):
            m = tab.get('cObjStoredType')
            if m is None: continue
            vals = [x.value.value for x in m.body if x.k == 'return' and x.value.k == 'num']
            if not vals: continue
            r.count('c_type_codes')
            if vals != [enums[en]]:
                r.violation('ctype:%s%s' % (cn, ' class' if meta else ''), '%s:%d' % (stsys.rel(m.file), m.line),
                            '%s has type code %s, the virtual machine uses %d' % (cn, vals, enums[en]))
            else: r.ob()
    for n, mn in (('classes_defined_by_the_vm', 90), ('structures_compared', 25), ('fields_compared', 100), ('header_accesses', 9),
                  ('context_flags', 3), ('instance_spec_shifts', 2), ('shape_codes', 13), ('c_type_codes', 20)):
        r.require(n, mn)
    r.rules += ['class table: number of names = number of fields; kernel definition has the same number of variables, superclass and shape; '
                'a variable named in both is at the same index',
                'C structure gst_X of class X: the word offset of every field is the index of the instance variable of that name, inherited '
                'variables included; the indexed part starts after the last variable',
                'every mask of a header word in CompiledCode and subclasses is exactly a C bit field (the one the accessor is named after)',
                'context flags, field count position, shape codes and C type codes equal the C constants']


vp.main('V12', check, explanation='Table-against-table comparison: the C side comes from the debug information and constant initialisers of '
        'the compiled VM headers, the Smalltalk side from the parsed kernel sources. All entries are compared.',
        trusted=['clang 18 debug information', 'parser of Smalltalk source in /verif/lib', 'naming convention gst_X / _gst_X_class'])
