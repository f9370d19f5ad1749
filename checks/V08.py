#!/usr/bin/env python3
"""V08: buffers that the operating system fills are made writable first."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, gcflow, stale, linexp

# operating-system functions: (buffer argument, size argument or None, size is behind a pointer)
FILL = {'read': (1, 2, 0), 'pread': (1, 2, 0), 'pread64': (1, 2, 0), 'recv': (1, 2, 0), 'recvfrom': (1, 2, 0),
        'getpeername': (1, 2, 1), 'getsockname': (1, 2, 1), 'accept': (1, 2, 1), 'accept4': (1, 2, 1),
        'getsockopt': (3, 4, 1), 'readlink': (1, 2, 0), 'getcwd': (0, 1, 0), 'fread': (0, None, 0),
        'stat': (1, None, 0), 'lstat': (1, None, 0), 'fstat': (1, None, 0), 'poll': (0, None, 0), 'pipe': (0, None, 0),
        'gethostname': (0, 1, 0), 'getrusage': (1, None, 0), 'gettimeofday': (0, None, 0), 'clock_gettime': (1, None, 0),
        'uname': (0, None, 0), 'waitpid': (1, None, 0), 'socketpair': (3, None, 0), 'getrandom': (0, 1, 0)}
FILL2 = {'recvfrom': (4, 5, 1)}


def check(r):
    p = cfront.load_vm()
    gc = gcflow.GC(p); st = stale.Stale(p, gc)
    grey = {f.name for f in p.by_base('_gst_grey_oop_range')}
    if not grey: raise cfront.AnalysisBroken('_gst_grey_oop_range not found')
    # functions that the class library calls through the C interface
    registered = set()
    for f in p.funcs.values():
        if f.decl: continue
        for i in f.calls():
            if i.callee and p.funcs[i.callee].base in ('_gst_define_cfunc',) and len(i.ops) > 1:
                v = i.ops[1]
                if isinstance(v, dict) and v.get('g') in p.funcs: registered.add(v['g'])
    summ = {}        # func -> set of (param, sizeparam or None, indirect)
    greys = {}       # func -> set of (param, sizeparam): always greyed on entry-to-exit (single block helpers)

    def roots(f, o, seen=None):
        """Root values of a pointer through offsets, phis and selects."""
        seen = set() if seen is None else seen
        d = f.defn(o)
        if d is None: return [o]
        if d.id in seen: return []
        seen.add(d.id)
        if d.op == 'gep': return roots(f, d.x['b'], seen)
        if d.op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'): return roots(f, d.ops[0], seen)
        if d.op == 'phi': return [x for v in d.ops for x in roots(f, v, seen)]
        if d.op == 'select': return [x for v in d.ops[1:] for x in roots(f, v, seen)]
        if d.op in ('add', 'sub'): return [x for v in d.ops if not isinstance(v, int) for x in roots(f, v, seen)]
        return [o]

    def isbody(f, o):
        d = f.defn(o)
        return d is not None and d.id in st.cls.get(f.name, ())

    def greyed(f, call, buf, size, indirect):
        """Is every path to call preceded by a grey call covering it? -> (ok, why)"""
        why = 'no call of _gst_grey_oop_range for this buffer on some path'
        covering = set()
        for i in f.calls():
            k = None
            if i.callee in grey: k = (i.ops[0], i.ops[1])
            elif i.callee in greys:
                for a, b in greys[i.callee]:
                    if linexp.diff(f, i.ops[a], buf) is not None: k = (i.ops[a], i.ops[b])
            if k is None: continue
            dp = linexp.diff(f, k[0], buf)
            if dp is None: continue
            if size is None: ds = 0
            elif indirect:
                d = f.defn(k[1])
                while d is not None and d.op in ('zext', 'sext', 'trunc'): d = f.defn(d.ops[0])
                ds = 0 if d is not None and d.op == 'load' and linexp.addrkey(f, d.ops[0]) == linexp.addrkey(f, size) else None
                # the length may be kept in a variable that was read earlier
                if ds is None: ds = linexp.diff(f, k[1], size)
            else: ds = linexp.diff(f, k[1], size)
            if ds is None: why = 'the range made writable is not known to cover the range that is filled'; continue
            if dp > 0 or dp + ds < 0:
                why = 'the range made writable (%+d bytes at the start, %+d at the end) does not cover the range that is filled' % (-dp, dp + ds); continue
            covering.add(i.id)
        # forward must-analysis: block is "greyed" if a covering call happened on all paths
        # covering calls in the same block must precede; clobbered when control returns to the definition of buf
        n = len(f.blocks)
        IN = [None] * n; IN[0] = False
        work = [0]
        def out(b, v, stop=None):
            for i in f.blocks[b]:
                if stop is not None and i.id == stop: return v
                if i.id in covering: v = True
            return v
        while work:
            b = work.pop()
            v = out(b, IN[b])
            for s in f.succs(b):
                # paths on which the call cannot be reached do not matter
                nv = v if IN[s] is None else (IN[s] and v)
                if nv != IN[s]: IN[s] = nv; work.append(s)
        if IN[call.bb] is None: return True, None
        return out(call.bb, IN[call.bb], call.id), why

    # helpers that grey a range given by their parameters
    ch = True
    while ch:
        ch = False
        for f in p.funcs.values():
            if f.decl or f.name in grey: continue
            for i in f.calls():
                if i.bb != 0: continue
                for a, b in ([(0, 1)] if i.callee in grey else greys.get(i.callee, ())):
                    x, y = f.param(i.ops[a]), f.param(i.ops[b])
                    d = f.defn(i.ops[b])
                    while y is None and d is not None and d.op in ('sext', 'zext', 'trunc'):
                        y = f.param(d.ops[0]); d = f.defn(d.ops[0])
                    if x is not None and y is not None and (x, y) not in greys.setdefault(f.name, set()):
                        greys[f.name].add((x, y)); ch = True
    sites = {}
    ch = True; rounds = 0
    while ch:
        ch = False; rounds += 1
        if rounds > 20: raise cfront.AnalysisBroken('no fixed point')
        for f in p.funcs.values():
            if f.decl or f.name in gc.boot: continue
            for i in f.calls():
                if not i.callee: continue
                g = p.funcs.get(i.callee)
                fl = []
                if g is None or g.decl:
                    if i.callee in FILL: fl.append(FILL[i.callee])
                    if i.callee in FILL2: fl.append(FILL2[i.callee])
                else: fl = sorted(summ.get(i.callee, ()), key=str)
                for k, sz, ind in fl:
                    if k >= len(i.ops): continue
                    buf = i.ops[k]; size = i.ops[sz] if sz is not None and sz < len(i.ops) else None
                    rt = roots(f, buf)
                    pars = [f.param(x) for x in rt if f.param(x) is not None]
                    body = any(isbody(f, x) for x in rt) or isbody(f, buf)
                    if not body and not pars: 
                        sites[(f.name, i.id, k)] = ('plain', f, i, None); continue
                    ok, why = greyed(f, i, buf, size, ind)
                    if body: sites[(f.name, i.id, k)] = ('ok' if ok else 'bad', f, i, why)
                    elif not ok:
                        sites[(f.name, i.id, k)] = ('caller', f, i, why)
                        sp = None
                        if size is not None:
                            d = size
                            while f.defn(d) is not None and f.defn(d).op in ('sext', 'zext', 'trunc'): d = f.defn(d).ops[0]
                            sp = f.param(d)
                        for q in pars:
                            if f.params[q] != 'ptr': continue
                            # offsets into the parameter: only the start is known to the caller
                            e = (q, sp if linexp.diff(f, buf, '%%%d' % q) == 0 else None, ind if sp is not None else 0)
                            if e not in summ.setdefault(f.name, set()):
                                summ[f.name].add(e); ch = True
                    else: sites[(f.name, i.id, k)] = ('ok', f, i, None)
    ns = {}
    for (fn, _, k), (kind, f, i, why) in sorted(sites.items()):
        r.count('os_fill_sites'); r.count('sites_' + kind)
        bad = kind == 'bad' or (kind == 'caller' and fn in registered)
        r.ob(not bad)
        if bad:
            t = i.callee
            key = '%s:%s:%d' % (f.base, t, k)
            r.violation(key, i.loc(), '%s lets %s fill a buffer that may lie in a Smalltalk object; %s' % (f.base, t, why))
        elif kind in ('ok', 'bad'): r.samples.append('%s: %s argument %d (%s)' % (i.loc(), i.callee, k, kind))
    # the range is rounded down to whole pages and runs to its end
    pv = cfront.unit_ir('oop')
    for f in [f for f in pv.by_base('_gst_grey_oop_range')]:
        stores = [i for i in f.instrs() if i.op == 'store']
        if not stores:
            r.violation('grey:empty', '%s:%d' % (f.file, f.line), '_gst_grey_oop_range writes nothing')
        for i in stores:
            d = f.defn(i.ops[1])
            if d is not None and d.op == 'phi':
                inits = [o for o in d.ops if f.defn(o) is None or not any(x == '%%%d' % d.id for x in roots2(f, f.defn(o)))]
                if inits and all(f.param(o) == 0 for o in inits) and len(stores) == 1:
                    r.violation('grey:start', i.loc(), '_gst_grey_oop_range steps by whole pages from an unaligned start and misses the last page')
                # loop bound
                for b in f.blocks:
                    t = b[-1]
                    if t.op != 'br' or len(t.ops) != 3: continue
                    c = f.defn(t.ops[0])
                    if c is None or c.op != 'icmp' or '%%%d' % d.id not in c.ops: continue
                    lim = c.ops[1] if c.ops[0] == '%%%d' % d.id else c.ops[0]
                    t1, k1 = linexp.add(linexp.lin(f, lim), linexp.lin(f, '%0'), -1)
                    t1, k1 = linexp.add((t1, k1), linexp.lin(f, '%1'), -1)
                    r.count('grey_bounds')
                    strict = c.x in ('ult', 'slt', 'ugt', 'sgt', 'ne', 'eq')
                    if not t1 and k1 < (0 if strict else -1) or t1 and all(v < 0 for v in t1.values()) and k1 <= 0:
                        r.violation('grey:end', c.loc(), '_gst_grey_oop_range stops before the end of the range')
    r.require('os_fill_sites', 20)
    if r.cov.get('sites_ok', 0) < 3: raise cfront.AnalysisBroken('no greyed buffers recognised')
    r.rules = ['a pointer that may address an object body (from an OOP, or from a pointer parameter of a C function that the class library calls) and is handed to a filling system call is preceded on every path by _gst_grey_oop_range covering the same range',
               'obligations of helper functions move to their callers', '_gst_grey_oop_range starts at a page boundary and runs to the end of the range']


def roots2(f, d):
    return [o for o in d.ops if isinstance(o, str)] + ([d.x['b']] if d.op == 'gep' else []) if d is not None else []


vp.main('V08', check, explanation='All calls of operating-system functions that fill memory, in all functions of libgst.',
        trusted=['clang 18 front end', 'the table of filling system calls in checks/V08.py', 'object-body classification of lib/stale.py'])
