"""Front end for the C half of the checks.

Copies the sources the VM is built from out of /repo's working tree into a
scratch directory, regenerates the generated sources (prims.inl, vm.inl,
match.h) from their definitions, compiles every libgst unit to LLVM bitcode
with clang, links them, and loads the result as Python objects (through the
`irdump` helper).  Nothing of /repo is executed except its own source
generators (genprims, genvm, genbc), which are part of its build.
"""
import atexit, concurrent.futures as cf, glob, hashlib, json, os, pickle, re, shutil, subprocess, sys, tempfile

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = 'clang-18'
UNITS = ('alloc byte callin cint comp dict events files gst-parse gstpub heap input interp lex md5 mpz oop '
         'opt print re real save sockets str sym sysdep tree xlat').split()


class AnalysisBroken(Exception):
    """The analysed tree could not be analysed (not a violation)."""


def _which(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise AnalysisBroken('tool not found: ' + '/'.join(names))


def scratch(prefix='vpchk-'):
    d = tempfile.mkdtemp(prefix=prefix, dir=os.environ.get('VP_TMP') or None)
    atexit.register(shutil.rmtree, d, True)
    return d


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise AnalysisBroken('%s failed (%d): %s' % (cmd if isinstance(cmd, str) else ' '.join(cmd[:6]),
                                                     r.returncode, r.stderr.decode('utf8', 'replace')[-2000:]))
    return r.stdout


def tree_hash(roots, exts=('.c', '.h', '.inl', '.def', '.y', '.l', '.st', '.xml', '.gperf')):
    h = hashlib.sha256()
    for root in roots:
        p = os.path.join(REPO, root)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if f.endswith(exts))
        for f in files:
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()


def stage(dst):
    """Copy the C sources of /repo's working tree to dst and regenerate."""
    for d in ('libgst', 'lib-src', 'snprintfv', 'lightning'):
        shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d), symlinks=True,
                        ignore=shutil.ignore_patterns('*.o', '*.lo', '*.la', '.libs', '*.a', '.deps', '*.so*'))
    cfg = os.path.join(REPO, 'config.h')
    shutil.copy(cfg if os.path.exists(cfg) else os.path.join(HERE, 'fallback/config.h'), os.path.join(dst, 'config.h'))
    ch = os.path.join(dst, 'snprintfv/snprintfv/compat.h')
    if not os.path.exists(ch):
        shutil.copy(os.path.join(HERE, 'fallback/compat.h'), ch)
    lg = os.path.join(dst, 'libgst')
    for f in ('prims.inl', 'vm.inl', 'match.h'):
        try: os.unlink(os.path.join(lg, f))
        except OSError: pass
    jobs = [['bison', '-y', '-d', '-o', g + '.c', g + '.y'] for g in ('genpr-parse', 'genvm-parse', 'genbc-decl', 'genbc-impl')]
    jobs += [['flex', '-o', g + '.c', g + '.l'] for g in ('genpr-scan', 'genvm-scan', 'genbc-scan')]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: run(c, cwd=lg), jobs))
        inc = ['-w', '-O0', '-DHAVE_CONFIG_H', '-I.', '-I..', '-I../lib-src', '-I../snprintfv',
               '-I../snprintfv/snprintfv', '-I../lightning', '-fcommon']
        os.mkdir(os.path.join(lg, 'o'))
        srcs = ['../snprintfv/snprintfv/%s.c' % x for x in 'custom filament format mem printf stream'.split()]
        srcs += ['../lib-src/%s.c' % x for x in 'md5 avltrees rbtrees getopt getopt1 lock strspell pointer-set'.split()]
        gens = 'genbc genbc-decl genbc-impl genbc-scan genvm-parse genvm-scan genpr-parse genpr-scan'.split()
        srcs = [s for s in srcs if os.path.exists(os.path.join(lg, s))]
        list(ex.map(lambda s: run(['gcc'] + inc + ['-c', s, '-o', 'o/%s.o' % os.path.basename(s)[:-2]], cwd=lg),
                    srcs + [g + '.c' for g in gens]))
    lib = ['o/%s.o' % os.path.basename(s)[:-2] for s in srcs]
    for prog, pre in (('genprims', 'genpr-'), ('genvm', 'genvm-'), ('genbc', 'genbc')):
        run(['gcc'] + ['o/%s.o' % g for g in gens if g.startswith(pre)] + lib + ['-lm', '-o', prog], cwd=lg)
    run('./genprims < prims.def > prims.inl', shell=True, cwd=lg)
    run("./genvm < vm.def | awk '{ /^#/ && gsub(/__oline__/,NR+1); print }' > vm.inl", shell=True, cwd=lg)
    run('./genbc byte.def byte.c opt.c xlat.c > match.h', shell=True, cwd=lg)
    for f in ('prims.inl', 'vm.inl', 'match.h'):
        if os.path.getsize(os.path.join(lg, f)) < 1000:
            raise AnalysisBroken('generated %s is empty' % f)
    return lg


CFLAGS = ['-DHAVE_CONFIG_H', '-I.', '-I..', '-DDEFAULT_EXECUTABLE="/usr/local/bin/gst"', '-I../lib-src',
          '-I../snprintfv', '-I../lightning', '-std=gnu17', '-fstrict-aliasing', '-w']
IRFLAGS = ['-g', '-O1', '-Xclang', '-disable-llvm-passes', '-Dvolatile=', '-D__builtin_expect(a,b)=(a)', '-emit-llvm', '-c']
PASSES = 'sroa,early-cse,simplifycfg,jump-threading,simplifycfg,early-cse'


def build_irdump(dst):
    out = os.path.join(dst, 'irdump')
    run([CLANG, '-O1', '-w', '-I/usr/lib/llvm-18/include', os.path.join(HERE, 'irdump.c'), '-o', out,
         '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    return out


def _cache_path(tag):
    c = os.environ.get('VP_CACHE')
    if not c:
        return None
    os.makedirs(c, exist_ok=True)
    h = hashlib.sha256()
    h.update(tree_hash(['libgst', 'lib-src', 'snprintfv', 'lightning', 'config.h']).encode())
    for f in ('irdump.c', 'cfront.py', 'known_functions.txt'):
        h.update(open(os.path.join(HERE, f), 'rb').read())
    h.update(tag.encode())
    return os.path.join(c, h.hexdigest()[:24] + '.' + tag)


def vm_ir_lines(passes=PASSES, inline=()):
    """JSON lines of the linked VM."""
    tag = hashlib.md5((passes + repr(inline)).encode()).hexdigest()[:8]
    cp = _cache_path('ir' + tag)
    if cp and os.path.exists(cp):
        return open(cp).read().splitlines()
    d = scratch()
    lg = stage(d)
    with cf.ThreadPoolExecutor(9) as ex:
        fut = ex.submit(build_irdump, d)
        def comp(u):
            run([CLANG] + CFLAGS + IRFLAGS + [u + '.c' if u != 'md5' else '../lib-src/md5.c', '-o', 'o/%s.bc' % u], cwd=lg)
        list(ex.map(comp, UNITS))
        irdump = fut.result()
    run(['llvm-link-18'] + ['o/%s.bc' % u for u in UNITS] + ['-o', 'o/all.bc'], cwd=lg)
    merge_new_functions(lg)
    force = []
    if inline:
        # (largest size, names to keep): inline the small functions of the units
        run([irdump, 'o/all.bc', 'o/all0.json'], cwd=lg)
        force = ['-force-attribute=%s:alwaysinline' % n for n in small_functions(os.path.join(lg, 'o/all0.json'), *inline)]
        passes = 'forceattrs,always-inline,' + passes
    run(['opt-18'] + force + ['-passes=' + passes, 'o/all.bc', '-o', 'o/all.opt.bc'], cwd=lg)
    run([irdump, 'o/all.opt.bc', 'o/all.json'], cwd=lg)
    data = open(os.path.join(lg, 'o/all.json')).read()
    if cp:
        open(cp, 'w').write(data)
    shutil.rmtree(d, True)
    return data.splitlines()


def merge_new_functions(lg, bc='o/all.bc'):
    """Functions that the tree did not have when the rules were written are
    analysed as a part of their callers, so that moving code to a helper of its
    own changes nothing."""
    known = set(open(os.path.join(HERE, 'known_functions.txt')).read().split())
    syms = subprocess.run(['llvm-nm-18', '--defined-only', '--format=posix', bc], cwd=lg, stdout=subprocess.PIPE,
                          stderr=subprocess.DEVNULL).stdout.decode().splitlines()
    new = []
    for l in syms:
        n, k = l.split()[:2]
        if k in 'tT' and re.sub(r'\.\d+$', '', n) not in known: new.append(n)
    if not new: return
    public = [l.split()[0] for l in syms if l.split()[0] not in new]
    with open(os.path.join(lg, 'o/public'), 'w') as f: f.write('\n'.join(public) + '\n')
    run(['opt-18'] + ['-force-attribute=%s:%s' % (n, a) for n in new for a in ('alwaysinline', 'returns_twice')] + ['-force-remove-attribute=%s:noinline' % n for n in new] +
        ['-internalize-public-api-file=o/public', '-passes=forceattrs,internalize,always-inline', bc, '-o', bc + '.n'], cwd=lg)
    os.replace(os.path.join(lg, bc + '.n'), os.path.join(lg, bc))


def small_functions(path, limit, keep):
    """functions local to their unit, called directly only, and small"""
    p = Program(open(path).read().splitlines())
    taken = set()
    def refs(o):
        if isinstance(o, dict):
            if 'g' in o and len(o) == 1: taken.add(o['g'])
            for v in o.values(): refs(v)
        elif isinstance(o, list):
            for v in o: refs(v)
    for g in p.globals.values(): refs(g.get('init'))
    for f in p.funcs.values():
        for i in f.instrs(): refs(i.ops)
    out = []
    for f in p.funcs.values():
        if f.decl or f.linkage not in (8, 9) or f.name in taken or f.base in keep or f.vararg or f.noreturn: continue
        if sum(len(b) for b in f.blocks) > limit: continue
        if any(i.callee == f.name for i in f.calls()): continue
        if any(i.callee in ('setjmp', '_setjmp', 'sigsetjmp', '__sigsetjmp') or i.op == 'alloca' and i.ops and not isinstance(i.ops[0], int) for i in f.instrs()): continue
        out.append(f.name)
    return out


def unit_irs(units, passes='sroa,early-cse,simplifycfg'):
    """Translation units compiled with their volatile qualifiers: {unit: Program}."""
    d = scratch(); lg = stage(d); res = {}
    irdump = build_irdump(d)
    for unit in units:
        run([CLANG] + CFLAGS + [x for x in IRFLAGS if x != '-Dvolatile='] + [unit + '.c', '-o', 'o/u.bc'], cwd=lg)
        merge_new_functions(lg, 'o/u.bc')
        run(['opt-18', '-passes=' + passes, 'o/u.bc', '-o', 'o/u.opt.bc'], cwd=lg)
        run([irdump, 'o/u.opt.bc', 'o/u.json'], cwd=lg)
        res[unit] = Program(open(os.path.join(lg, 'o/u.json')).read().splitlines())
    shutil.rmtree(d, True)
    return res


def unit_ir(unit, passes='sroa,early-cse,simplifycfg'): return unit_irs((unit,), passes)[unit]


class Instr:
    __slots__ = ('id', 'op', 'ty', 'x', 'ops', 'line', 'file', 'bb', 'fn', 'idx')

    def __repr__(self):
        return '%%%d = %s %s %r %r @%s:%d' % (self.id, self.op, self.ty, self.x, self.ops, self.file, self.line)

    @property
    def callee(self):
        """Name of the directly called function or None."""
        if self.op == 'call' and isinstance(self.x, dict):
            return self.x.get('g')
        return None

    def succ(self):
        if self.op == 'br':
            o = self.ops
            if len(o) == 1:
                return [o[0]['bb']]
            return [o[2]['bb'], o[1]['bb']]     # true, false
        if self.op == 'switch':
            return [o['bb'] for o in self.ops if isinstance(o, dict) and 'bb' in o]
        if self.op == 'indirectbr':
            return [o['bb'] for o in self.ops[1:]]
        return []

    def loc(self):
        return '%s:%d' % (self.file or '?', self.line)


class Func:
    def __init__(self, d):
        self.name = d['name']; self.decl = bool(d['decl']); self.params = d['params']; self.ret = d['ret']
        self.linkage = d['linkage']; self.noreturn = bool(d.get('noreturn')); self.line = d.get('line', 0)
        self.file = os.path.basename(d.get('file', '') or '')
        self.vararg = bool(d.get('vararg'))
        self.blocks = []; self.ins = {}
        for bi, b in enumerate(d.get('blocks', ())):
            blk = []
            last = 0; lf = ''
            for i in b:
                n = Instr(); n.id, n.op, n.ty, n.x, n.ops, n.line, n.file = i
                if not n.line:
                    n.line, n.file = last, lf
                else:
                    last, lf = n.line, n.file
                n.bb = bi; n.fn = self; n.idx = len(blk)
                blk.append(n); self.ins[n.id] = n
            self.blocks.append(blk)
        self._preds = None

    @property
    def base(self):
        return re.sub(r'\.\d+$', '', self.name)

    def term(self, b):
        return self.blocks[b][-1]

    def succs(self, b):
        return self.term(b).succ()

    @property
    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.blocks]
            for b in range(len(self.blocks)):
                for s in self.succs(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def instrs(self):
        for b in self.blocks:
            yield from b

    def calls(self):
        for i in self.instrs():
            if i.op == 'call':
                yield i

    def defn(self, o):
        """Instruction defining operand o, or None (constant/param)."""
        if isinstance(o, str) and o[0] == '%':
            return self.ins.get(int(o[1:]))
        return None

    def param(self, o):
        if isinstance(o, str) and o[0] == '%':
            k = int(o[1:])
            if k < len(self.params):
                return k
        return None

    def rpo(self):
        seen = set(); out = []
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succs(s)))); break
            else:
                out.append(b); stack.pop()
        out.reverse()
        return out

    def dominators(self):
        """Immediate-dominator map (Cooper-Harvey-Kennedy)."""
        rpo = self.rpo(); num = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                n = None
                for p in self.preds[b]:
                    if p in idom:
                        if n is None: n = p
                        else:
                            a, c = p, n
                            while a != c:
                                while num[a] > num[c]: a = idom[a]
                                while num[c] > num[a]: c = idom[c]
                            n = a
                if n is not None and idom.get(b) != n:
                    idom[b] = n; ch = True
        return idom


class Program:
    def __init__(self, lines):
        self.funcs = {}; self.globals = {}
        for l in lines:
            if not l.strip():
                continue
            d = json.loads(l)
            if d['kind'] == 'func':
                self.funcs[d['name']] = Func(d)
            else:
                self.globals[d['name']] = d

    def by_base(self, base):
        return [f for f in self.funcs.values() if f.base == base and not f.decl]

    def get(self, name):
        f = self.funcs.get(name)
        if f is None or f.decl:
            raise AnalysisBroken('function %s not found' % name)
        return f


def load_vm(**kw):
    p = Program(vm_ir_lines(**kw))
    if len(p.funcs) < 800:
        raise AnalysisBroken('only %d functions in the VM' % len(p.funcs))
    return p


def prim_table(p):
    """[(number, name, func, id, attributes)] read from the generated initialiser."""
    f = p.get('_gst_init_primitives')
    tab = {}
    gsize = None
    for i in f.instrs():
        if i.op == 'store':
            a = i.ops[1]
            off = None
            if isinstance(a, dict) and a.get('ce') == 'gep' and isinstance(a['gep']['b'], dict) and a['gep']['b'].get('g') == '_gst_default_primitive_table':
                off = a['gep']['o'] if not a['gep']['v'] else None
            elif isinstance(a, dict) and a.get('g') == '_gst_default_primitive_table':
                off = 0
            if off is None:
                continue
            tab[off] = i.ops[0]
    # struct prim_table_entry { const char *name; func; int attributes; int id; }
    out = {}
    for off, v in tab.items():
        if isinstance(v, dict) and v.get('g') in p.funcs:
            base = off - (off % 24)
            n = base // 24
            name = tab.get(base)
            nm = None
            if isinstance(name, dict) and 'g' in name:
                nm = p.globals[name['g']].get('init', {}).get('s', '').rstrip('\0')
            out[n] = dict(num=n, func=v['g'], name=nm, attr=tab.get(base + 16, 0), id=tab.get(base + 20, 0))
    if len(out) < 200:
        raise AnalysisBroken('primitive table not recognised (%d entries)' % len(out))
    return out
