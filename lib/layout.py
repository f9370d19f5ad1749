"""Layouts of the VM's C structures, from the compiler's debug information."""
import os, re, shutil
import cfront
from cfront import run, CLANG, CFLAGS, AnalysisBroken


def structures(lg, includes=('gstpriv.h', 'cint.h')):
    """({struct: [(field, bit offset, bits, is array)]}, {enumerator: value}, {macro: text})"""
    src = os.path.join(lg, 'vp_layout.c')
    open(src, 'w').write(''.join('#include "%s"\n' % i for i in includes))
    flags = CFLAGS + ['-Dvolatile=']
    run([CLANG] + flags + ['-S', '-emit-llvm', '-g', '-fno-eliminate-unused-debug-types', 'vp_layout.c', '-o', 'vp_layout.ll'], cwd=lg)
    mac = run([CLANG] + flags + ['-dM', '-E', 'vp_layout.c'], cwd=lg).decode('utf8', 'replace')
    macros = dict(re.findall(r'^#define (\w+) (.*)$', mac, re.M))
    md = {}
    for l in open(os.path.join(lg, 'vp_layout.ll')):
        m = re.match(r'^!(\d+) = (?:distinct )?(!?\w*)(.*)$', l)
        if m: md[int(m.group(1))] = (m.group(2), m.group(3))

    def attr(t, k):
        m = re.search(r'[( ]%s: ("[^"]*"|![0-9]+|[-\w]+)' % k, t)
        return m.group(1).strip('"') if m else None

    def elems(n):
        return [int(x) for x in re.findall(r'!(\d+)', md[n][1])] if n in md else []
    def is_arr(r):
        return bool(r and r[0] == '!' and attr(md[int(r[1:])][1], 'tag') == 'DW_TAG_array_type')
    out = {}; enums = {}
    for k, (kind, t) in md.items():
        if kind == '!DICompositeType' and attr(t, 'tag') == 'DW_TAG_structure_type':
            nm = attr(t, 'name'); e = attr(t, 'elements')
            if not nm or not e: continue
            fs = []
            for x in elems(int(e[1:])):
                kk, tt = md[x]
                if kk == '!DIDerivedType' and attr(tt, 'tag') == 'DW_TAG_member':
                    fs.append((attr(tt, 'name') or '', int(attr(tt, 'offset') or 0), int(attr(tt, 'size') or 0), is_arr(attr(tt, 'baseType'))))
            out[nm] = fs
        elif kind == '!DIEnumerator':
            enums[attr(t, 'name')] = int(attr(t, 'value'))
    if len(out) < 40: raise AnalysisBroken('only %d structures' % len(out))
    return out, enums, macros
