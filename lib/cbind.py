"""C functions that the library can call: registrations and their types."""
import concurrent.futures as cf, os, glob
import cfront
from cfront import REPO, run, CLANG, AnalysisBroken

INC = ['-I/usr/include/tcl8.6', '-I/usr/include/SDL', '-I/usr/include/glib-2.0',
       '-I/usr/lib/x86_64-linux-gnu/glib-2.0/include', '-D_GNU_SOURCE=1', '-DLOCALEDIR="/x"', '-DLIBDIR="/x"',
       '-Wno-error', '-Wno-incompatible-function-pointer-types']
PKG = ['opengl', 'glib', 'blox/tk', 'xml/expat', 'iconv', 'netlink', 'digest', 'glut', 'sdl/libsdl', 'gdbm',
       'dbd-sqlite', 'zlib', 'i18n']


def gstr(p, o):
    """constant C string of an operand"""
    while isinstance(o, dict) and o.get('ce') == 'gep' and not o['gep']['v'] and not o['gep']['o']: o = o['gep']['b']
    if isinstance(o, dict) and 'g' in o:
        i = p.globals.get(o['g'], {}).get('init')
        if isinstance(i, dict) and 's' in i: return i['s'].rstrip('\0')
    return None


def registrations(p):
    """[(name, function, where)] of (string, function) registration calls"""
    out = []
    for f in p.funcs.values():
        if f.decl: continue
        for i in f.calls():
            if len(i.ops) != 2: continue
            if i.callee is not None and i.callee != '_gst_define_cfunc': continue
            s = gstr(p, i.ops[0]); g = i.ops[1]
            if s is not None and isinstance(g, dict) and g.get('g') in p.funcs: out.append((s, g['g'], i.loc()))
        # table-driven registrations would need their own rule
    return out


def package_programs():
    d = cfront.scratch()
    lg = os.path.join(d, 'cfg'); os.mkdir(lg)
    cfg = os.path.join(REPO, 'config.h')
    import shutil
    shutil.copy(cfg if os.path.exists(cfg) else os.path.join(cfront.HERE, 'fallback/config.h'), os.path.join(lg, 'config.h'))
    open(os.path.join(lg, 'libs.def'), 'w').close()      # generated list of library names; only data
    jobs = []
    for s in PKG:
        for c in sorted(glob.glob(os.path.join(REPO, 'packages', s, '*.c'))):
            if 'test' in os.path.basename(c): continue
            jobs.append((s, c, os.path.join(d, s.replace('/', '_') + '_' + os.path.basename(c) + '.bc')))
    if len(jobs) < 15: raise AnalysisBroken('only %d C files in the packages' % len(jobs))
    with cf.ThreadPoolExecutor(8) as ex:
        fut = ex.submit(cfront.build_irdump, d)
        def comp(j):
            s, c, o = j
            run([CLANG, '-w', '-O0', '-g', '-emit-llvm', '-c', '-DHAVE_CONFIG_H', '-I' + lg, '-I' + REPO + '/libgst',
                 '-I' + REPO + '/lib-src', '-I' + os.path.dirname(c)] + INC + [c, '-o', o])
        list(ex.map(comp, jobs)); ird = fut.result()
        def dump(j):
            run([ird, j[2], j[2] + '.json']); return j[0], j[1], cfront.Program(open(j[2] + '.json').read().splitlines())
        out = list(ex.map(dump, jobs))
    shutil.rmtree(d, True)
    return out
