#!/usr/bin/env python3
"""V15: failed or incomplete saving and loading of images."""
import os, sys, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
import vp, cfront, fault, oscalls
from cfront import AnalysisBroken
from nesting import g_of, strip
from sccp import _sg
from oscalls import outcome, root


def closure(p, top):
    """functions reachable from top whose callers are all reachable only through top"""
    callers = {}
    for f in p.funcs.values():
        if f.decl: continue
        for i in f.calls():
            if i.callee in p.funcs and not p.funcs[i.callee].decl: callers.setdefault(i.callee, set()).add(f.name)
    reach = set(); st = [top]
    while st:
        n = st.pop()
        if n in reach: continue
        reach.add(n)
        for i in p.funcs[n].calls():
            if i.callee in p.funcs and not p.funcs[i.callee].decl: st.append(i.callee)
    out = {top}; ch = True
    while ch:
        ch = False
        for n in reach - out:
            if callers.get(n, set()) and callers[n] <= out: out.add(n); ch = True
    return out


def leaves(p, C, f, o, depth=3, seen=None):
    """what value o is computed from: globals, structure fields and memory reached through globals"""
    seen = set() if seen is None else seen; out = set()
    if isinstance(o, dict):
        g = g_of(o)
        return {('g', g)} if g else set()
    if not isinstance(o, str) or o[:1] != '%': return set()
    k = f.param(o)
    if k is not None:
        if depth and f.name in C:
            for n in C:
                for i in p.funcs[n].calls():
                    if i.callee == f.name and k < len(i.ops): out |= leaves(p, C, p.funcs[n], i.ops[k], depth - 1)
        return out
    d = f.defn(o)
    if d is None or (f.name, d.id) in seen: return set()
    seen.add((f.name, d.id))
    if d.op == 'alloca':
        # the contents: what is copied or stored there
        for i in f.instrs():
            if i.op == 'call' and (i.callee or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy')) and root(f, i.ops[0]) is d: out |= {('mem',) + x for x in leaves(p, C, f, i.ops[1], depth, seen)}
            if i.op == 'store' and root(f, i.ops[1]) is d: out |= leaves(p, C, f, i.ops[0], depth, seen)
        return out
    if d.op == 'gep':
        out |= {('f',) + tuple(x) for x in d.x['f'][-1:]}
        if not d.x['f']: out |= {x for v in d.x['v'] for x in leaves(p, C, f, v[0], depth, seen)}
        return out | leaves(p, C, f, d.x['b'], depth, seen)
    if d.op == 'call':
        return {('call', p.funcs[d.callee].base if d.callee in p.funcs else d.callee)} | {x for a in d.ops for x in leaves(p, C, f, a, depth, seen)}
    for x in (d.ops[1:] if d.op == 'select' else d.ops): out |= leaves(p, C, f, x, depth, seen)
    return out


def scaled(f, o):
    """(value, factor) of a product or quotient with a constant: factor > 0 multiplies, < 0 divides"""
    d = f.defn(strip(f, o))
    if d is None: return o, 1
    for a, b in ((0, 1), (1, 0)):
        if d.op == 'mul' and isinstance(d.ops[b], int): return d.ops[a], d.ops[b]
    if d.op == 'shl' and isinstance(d.ops[1], int): return d.ops[0], 1 << d.ops[1]
    if d.op == 'udiv' and isinstance(d.ops[1], int): return d.ops[0], -d.ops[1]
    if d.op == 'lshr' and isinstance(d.ops[1], int): return d.ops[0], -(1 << d.ops[1])
    return o, 1


def refusals(p, f):
    """(condition instruction, truth value) on which f only answers false"""
    W = fault.Walk(p)
    def fails(e):
        return e and all(x.kind == 'noreturn' or x.kind == 'ret' and isinstance(x.val, int) and x.val == 0 for x in e) and any(x.kind == 'ret' for x in e)
    for b in range(len(f.blocks)):
        t = f.term(b)
        if t.op != 'br' or len(t.ops) != 3: continue
        s = t.succ()
        if s[0] == s[1]: continue
        for pol, dst in ((1, s[0]), (0, s[1])):
            if fails(W.run_edge(f, b, dst)):
                for c in conds(f, t.ops[0], pol): yield c
    # a condition whose value is the result
    for i in f.instrs():
        if i.op == 'ret' and i.ops:
            for o, pol in arms(f, i.ops[0]):
                for c in conds(f, o, pol): yield c


def arms(f, o, seen=None):
    seen = set() if seen is None else seen
    d = f.defn(strip(f, o))
    if d is None or d.id in seen: return []
    seen.add(d.id)
    if d.op in ('phi', 'select'):
        out = [x for v in (d.ops if d.op == 'phi' else d.ops[1:]) for x in arms(f, v, seen)]
        if d.op == 'select': out += [(d.ops[0], pol) for v, pol in ((d.ops[1], 1), (d.ops[2], 0)) if v is False or v == 0]
        return out
    if d.op == 'zext': return arms(f, d.ops[0], seen)
    return [('%%%d' % d.id, 0)]


def conds(f, o, pol):
    """comparisons one of which suffices for condition o to have truth value pol"""
    d = f.defn(o)
    if d is None: return
    if d.op in ('icmp', 'call'): yield d, pol
    elif d.op == 'xor' and (1 in d.ops or -1 in d.ops or True in d.ops):
        for x in d.ops:
            if isinstance(x, str): yield from conds(f, x, 1 - pol)
    elif d.op == 'select':
        c, x, y = d.ops
        if pol and x in (1, -1, True): yield from conds(f, c, 1); yield from conds(f, y, 1)
        elif not pol and y in (0, False): yield from conds(f, c, 0); yield from conds(f, x, 0)
    elif d.op == 'or' and pol or d.op == 'and' and not pol:
        for x in d.ops: yield from conds(f, x, pol)
    elif d.op in ('freeze', 'zext'): yield from conds(f, d.ops[0], pol)


def check(r):
    p = cfront.load_vm(); C = oscalls.Calls(p); W = fault.Walk(p)
    top = p.get('_gst_save_to_file'); ltop = p.get('_gst_load_from_file')
    SC = closure(p, top.name); LC = closure(p, ltop.name)
    r.cov['saving_functions'] = len(SC); r.cov['loading_functions'] = len(LC)
    isfail = lambda e: e.kind == 'noreturn' and e.val in fault.NORETURN[:3] or e.kind == 'ret' and isinstance(e.val, int) and e.val == 0 and e.i.fn.ret != 'void'

    # --- saving: a failing call leaves through longjmp or a false result
    jumps = set()
    for n in sorted(SC):
        f = p.funcs[n]
        for i in f.calls():
            if i.callee in fault.NORETURN[:3]: jumps.add((g_of(strip(f, i.ops[0])), i.loc()))
            k = C.kind(i)
            if k is None or not k[2] & {'write', 'open', 'close', 'pwrite', 'writev', 'fsync', 'ftruncate', 'lseek', 'creat', 'mkstemp', 'rename'}: continue
            r.count('saving_calls')
            for val in ([k[0], 0] if k[2] & oscalls.COUNT else [k[0]]):
                watch = lambda ff, j, a, en: 'stop' if ff is f and j is i else None
                # a close that fails after something else failed says nothing new
                ex = [e for e in W.run(f, i, val, True, errno=5, watch=watch) if e.kind != 'stop']
                bad = [e for e in ex if not isfail(e)]
                if k[2] == {'close'} and n == top.name:
                    bad = [e for e in bad if isinstance(e.val, int)]     # '?' : the outcome known before
                    ok = W.run(f, i, 0, False)
                    bad += [] if {outcome(e) for e in ex} != {outcome(e) for e in ok} else ex[:1]
                r.ob(not bad)
                for e in bad[:1]: r.violation('save:%s:%s' % (f.base, C.base(i.callee)), e.i.loc(), '%s may go on as if nothing happened when %s (%s) %s' % (f.base, C.base(i.callee), i.loc(), 'fails' if val else 'writes nothing'))
    # the jump ends in a false result, and the incomplete file is removed
    sj = [i for i in top.calls() if i.callee in ('_setjmp', 'setjmp', '__sigsetjmp')]
    if jumps and not sj: raise AnalysisBroken('no setjmp in _gst_save_to_file')
    for i in sj:
        for g, loc in jumps:
            r.count('jumps'); good = g == g_of(strip(top, i.ops[0]))
            r.ob(good)
            if not good: r.violation('jump:%s' % g, loc, 'the jump on failure does not lead to _gst_save_to_file')
        ex = W.run(top, i, 1, False, watch=lambda ff, j, a, en: 'unlink' if j.callee in ('unlink', 'remove', 'rename') else None)
        for what, bad in (('success is reported', [e for e in ex if not isfail(e)]), ('the incomplete image is left behind', [e for e in ex if 'unlink' not in e.trace])):
            r.count('after_failure'); r.ob(not bad)
            for e in bad[:1]: r.violation('failed:%s' % what, e.i.loc(), '%s after writing the image failed' % what)
    # --- a false result is noticed by everyone
    for goal, name in ((top, 'save'), (ltop, 'load')):
        n = 0
        for f in p.funcs.values():
            if f.decl: continue
            for i in f.calls():
                if i.callee != goal.name: continue
                n += 1
                F = W.run(f, i, 0, False, watch=events); S = W.run(f, i, fault.Ok(i.id, 1), False, watch=events)
                oc = lambda e: outcome(e) + tuple(e.trace)
                good = bool({oc(e) for e in S} - {oc(e) for e in F}) and bool({oc(e) for e in F} - {oc(e) for e in S})
                r.count('callers'); r.ob(good)
                if not good: r.violation('%s-result:%s' % (name, f.base), i.loc(), '%s does not notice that %s failed' % (f.base, goal.base))
        if not n: raise AnalysisBroken('%s is not called' % goal.name)
    # --- loading: failures become a false result all the way up
    bools = set()
    for n in LC:
        f = p.funcs[n]
        if f.ret in ('i32', 'i1', 'i8'):
            rets = {x for i in f.instrs() if i.op == 'ret' for x in consts(f, i.ops[0])}
            if 0 in rets: bools.add(n)
    for n in sorted(LC):
        f = p.funcs[n]
        for i in f.calls():
            k = C.kind(i); vals = []
            if k is not None and k[2] & {'read', 'pread', 'readv', 'open', 'fstat'}: vals = [k[0]] + ([0] if k[2] & oscalls.COUNT else [])
            elif i.callee in bools or p.funcs.get(i.callee) is not None and p.funcs[i.callee].base == '_gst_init_dictionary_on_image_load': vals = [0]
            for val in vals:
                r.count('loading_calls')
                watch = lambda ff, j, a, en: 'stop' if ff is f and j is i else None
                bad = [e for e in W.run(f, i, val, True, errno=5, watch=watch) if e.kind != 'stop' and not isfail(e)]
                r.ob(not bad)
                for e in bad[:1]: r.violation('load:%s:%s' % (f.base, C.base(i.callee)), e.i.loc(), '%s may succeed although %s (%s) fails' % (f.base, C.base(i.callee), i.loc()))
    # --- what is written in front of an image is checked
    hdr = None; stores = {}; consts_w = {}
    for n in SC:
        f = p.funcs[n]
        for i in f.instrs():
            o = i.ops[1] if i.op == 'store' else i.ops[0] if i.op == 'call' and (i.callee or '').startswith(('llvm.memcpy', 'memcpy')) else None
            if o is None: continue
            d = f.defn(strip(f, o))
            if d is not None and d.op == 'gep' and d.x['f']:
                k = tuple(d.x['f'][-1]); stores.setdefault(k, []).append(i)
                v = i.ops[0] if i.op == 'store' else i.ops[1]
                if isinstance(v, int) or isinstance(v, dict) and 'g' in v and v['g'].startswith('.str'): consts_w[k] = (i, v)
    hs = {}
    for k in stores: hs[k[0]] = hs.get(k[0], 0) + 1
    hdr = max((h for h in hs if any(k[0] == h for k in consts_w)), key=lambda h: hs[h], default=None)
    if hdr is None: raise AnalysisBroken('no image header recognised')
    written = {k for k in stores if k[0] == hdr}
    checked = {}; refs = []
    for n in LC:
        f = p.funcs[n]
        for c, pol in refusals(p, f):
            lv = set()
            m = c if c.op == 'call' else next((f.defn(strip(f, o)) for o in c.ops if f.defn(strip(f, o)) is not None and f.defn(strip(f, o)).op == 'call'), None)
            if m is not None and m.callee in ('strncmp', 'memcmp', 'bcmp') and isinstance(m.ops[2], int):
                d = f.defn(strip(f, m.ops[0])); e = f.defn(strip(f, m.ops[1]))
                w = [consts_w[tuple(x.x['f'][-1])][0].ops[2] for x in (d, e) if x is not None and x.op == 'gep' and x.x['f'] and tuple(x.x['f'][-1]) in consts_w]
                if any(isinstance(n2, int) and m.ops[2] < n2 for n2 in w): continue      # compares less than what is written
            for o in c.ops: lv |= leaves(p, LC, f, o)
            refs.append((f, c, pol, lv))
            for x in lv:
                if x[0] == 'f' and x[1] == hdr: checked.setdefault((x[1], x[2]), c)
    r.cov['refusals'] = len(refs)
    for k in sorted(consts_w):
        if k[0] != hdr: continue
        r.count('identifying_fields'); ok = k in checked
        r.ob(ok)
        if not ok: r.violation('header:%s.%d' % k, consts_w[k][0].loc(), 'the image is loaded whatever this part of its header says')
    used = {}
    for n in LC:
        f = p.funcs[n]
        for i in f.instrs():
            if i.op == 'load':
                d = f.defn(strip(f, i.ops[0]))
                if d is not None and d.op == 'gep' and d.x['f'] and d.x['f'][-1][0] == hdr: used.setdefault(tuple(d.x['f'][-1]), i)
    for k, i in sorted(used.items()):
        r.count('header_fields'); r.ob(k in written)
        if k not in written: r.violation('unwritten:%s.%d' % k, i.loc(), 'this part of the header is used when loading but never written')
    # --- nothing behind the end of the file is read
    sizes = [g for g, n in sizeglobals(p, C, LC)]
    if not sizes: raise AnalysisBroken('the file size is not recorded')
    need = headersize(p, LC)
    okh = okt = oko = None
    for f, c, pol, lv in refs:
        if c.op != 'icmp': continue
        sz = [('g', g) for g in sizes]
        if not any(s in lv for s in sz): continue
        low, k = bound(f, c, pol)          # refuses when  low-side < k * other
        fields = {x for x in lv if x[0] == 'f' and x[1] == hdr}
        mem = any(x[0] == 'mem' for x in lv)
        if mem and k is not None and k >= 8: oko = c
        elif fields and not mem and k is not None and k >= 16: okt = c
        elif not fields and not mem:
            lim = [o for o in c.ops if isinstance(o, int)]
            x = {'ult': (1, 0), 'slt': (1, 0), 'uge': (0, 0), 'sge': (0, 0), 'ule': (1, 1), 'sle': (1, 1), 'ugt': (0, 1), 'sgt': (0, 1)}.get(c.x)
            if lim and c.ops[1] == lim[0] and x and x[0] == pol and lim[0] + x[1] >= need: okh = c
    for what, ok in (('header', okh), ('object table', okt), ('objects', oko)):
        r.count('size_checks'); r.ob(ok is not None)
        if ok is None: r.violation('size:%s' % what, '%s:%d' % (ltop.file, ltop.line), 'a file too short for its %s is not refused' % what)
    # --- buffered data is written before success is reported
    flush(r, p, C, SC, top)
    r.require('saving_calls', 2); r.require('loading_calls', 6); r.require('identifying_fields', 3); r.require('header_fields', 8); r.require('callers', 3)
    r.rules = ['every failing or empty write, open or close while saving ends in a longjmp to _gst_save_to_file or in a false result; after the jump the result is false and the file is unlinked',
               'a false result of saving or loading leads its callers to behave differently from a true one',
               'every failing read, fstat, open or check while loading makes each function up to _gst_load_from_file answer false',
               'each constant that saving puts into the header takes part in a condition that refuses the image; every header field used by loading is written by saving',
               'files shorter than the header, than the object table announced in it, or than the objects announced in the table are refused',
               'the write buffer is only reset after it was written, and is empty when saving succeeds']


def events(f, i, a, en):
    c = i.callee
    return c if c and not c.startswith('llvm.') else None


def consts(f, o, seen=None):
    seen = set() if seen is None else seen
    if isinstance(o, bool): return {int(o)}
    if isinstance(o, int): return {o}
    d = f.defn(strip(f, o))
    if d is None or d.id in seen: return set()
    seen.add(d.id)
    if d.op in ('phi', 'select'): return {x for v in (d.ops if d.op == 'phi' else d.ops[1:]) for x in consts(f, v, seen)}
    if d.op in ('zext', 'sext'): return consts(f, d.ops[0], seen)
    return set()


def sizeglobals(p, C, LC):
    """globals that hold the size found by fstat"""
    out = []
    for n in LC:
        f = p.funcs[n]
        for i in f.calls():
            if i.callee not in ('fstat', 'stat', 'lseek'): continue
            for j in f.instrs():
                if j.op == 'store' and g_of(j.ops[1]):
                    d = f.defn(strip(f, j.ops[0]))
                    if d is i or d is not None and d.op == 'load' and len(i.ops) > 1 and root(f, d.ops[0]) is not None and root(f, d.ops[0]) is root(f, i.ops[1]): out.append((g_of(j.ops[1]), n))
    return out


def headersize(p, LC):
    """size of the structure that the header is read into"""
    best = 0
    for n in LC:
        f = p.funcs[n]
        for i in f.instrs():
            if i.op == 'alloca' and 'header' in str(i.x[0]): best = max(best, i.x[1])
    if not best: raise AnalysisBroken('no header structure in the loading functions')
    return best


def bound(f, c, pol):
    """(.., k) when the refusing comparison means  k * announced > available"""
    a, b = c.ops; x = c.x
    if not pol: x = {'ugt': 'ule', 'uge': 'ult', 'ult': 'uge', 'ule': 'ugt', 'sgt': 'sle', 'sge': 'slt', 'slt': 'sge', 'sle': 'sgt'}.get(x, x)
    if x in ('ult', 'slt', 'ule', 'sle'): a, b = b, a
    elif x not in ('ugt', 'sgt', 'uge', 'sge'): return None, None
    a, ka = scaled(f, a); b, kb = scaled(f, b)
    k = (ka if ka > 0 else 1) * (-kb if kb < 0 else 1)
    if ka < 0 or kb > 1: return None, None
    return a, k


def flush(r, p, C, SC, top):
    """typestate of the write buffer: clean, dirty, written"""
    writes = {n for n in p.funcs if n in C.wrap and 'write' in C.wrap[n][1]} | {'write'}
    ch = True; wf = set()
    while ch:
        ch = False
        for n in SC - wf:
            for i in p.funcs[n].calls():
                if i.callee in writes or i.callee in wf: wf.add(n); ch = True; break
    # the position: a global passed as a length to a writing function
    pos = {}
    for n in SC:
        f = p.funcs[n]
        for i in f.calls():
            if i.callee in wf or i.callee in writes:
                for o in i.ops:
                    d = f.defn(strip(f, o))
                    if d is not None and d.op == 'load' and g_of(d.ops[0]) and d.ty != 'ptr': pos[g_of(d.ops[0])] = pos.get(g_of(d.ops[0]), 0) + 1
    pos = {g for g in pos if any(i.op == 'store' and g_of(i.ops[1]) == g and i.ops[0] == 0 for n in SC for i in p.funcs[n].instrs())}
    r.cov['buffer_positions'] = len(pos)
    if not pos: raise AnalysisBroken('no buffer position recognised')
    for g in pos:
        summ = {}; bad = []
        def run(f, st0):
            seen = set(); work = [(0, st0)]; outs = set()
            while work:
                b, st = work.pop()
                if (b, st) in seen: continue
                seen.add((b, st)); sts = {st}
                for i in f.blocks[b]:
                    if i.op == 'store' and g_of(i.ops[1]) == g:
                        sts = {'C'} if i.ops[0] == 0 else {'D'}
                    elif i.op == 'call' and i.callee in SC and i.callee in summ:
                        sts = {y for x in sts for y in summ[i.callee].get(x, ())}
                    if i.op == 'call' and (i.callee in wf or i.callee in writes) and any(loadof(f, o) == g for o in i.ops): sts = {'W' if x == 'D' else x for x in sts}
                if not sts: continue
                if f.term(b).op == 'ret': outs |= sts
                for s in f.succs(b): work += [(s, x) for x in sts]
            return outs
        for _ in range(6):
            for n in SC:
                summ[n] = {s: run(p.funcs[n], s) for s in 'CDW'}
        # the functions that _gst_save_to_file calls start with an empty buffer
        fs = {i.callee for i in top.calls() if i.callee in SC and i.callee in wf}
        r.count('buffered_top', len(fs))
        for n in sorted(fs):
            o = run(p.funcs[n], 'C')
            r.ob(o <= {'C'})
            if not o <= {'C'}: r.violation('unflushed:%s' % p.funcs[n].base, '%s:%d' % (p.funcs[n].file, p.funcs[n].line), 'saving may succeed while data is still in the write buffer')
        # resets of a dirty buffer on paths from the top
        twice = []
        def deep(f, st, seen):
            if (f.name, st) in seen: return
            seen.add((f.name, st))
            work = [(0, st)]; vis = set()
            while work:
                b, s0 = work.pop()
                if (b, s0) in vis: continue
                vis.add((b, s0)); s = {s0}
                for i in f.blocks[b]:
                    if i.op == 'store' and g_of(i.ops[1]) == g:
                        if i.ops[0] == 0:
                            if 'D' in s: bad.append(i)
                            s = {'C'}
                        else:
                            if 'W' in s: twice.append(i)
                            s = {'D'}
                    elif i.op == 'call' and i.callee in SC:
                        for x in s: deep(p.funcs[i.callee], x, seen)
                        pas = any(loadof(f, o) == g for o in i.ops) and i.callee in wf
                        s = {y for x in s for y in summ[i.callee].get(x, ())}
                        if pas: s = {'W' if x == 'D' else x for x in s}
                    elif i.op == 'call' and i.callee in writes and any(loadof(f, o) == g for o in i.ops): s = {'W' if x == 'D' else x for x in s}
                work += [(t, x) for t in f.succs(b) for x in s]
        seen = set()
        for n in fs: deep(p.funcs[n], 'C', seen)
        r.ob(not bad); r.ob(not twice)
        for i in twice[:1]: r.violation('twice:%s' % i.fn.base, i.loc(), 'the buffer is filled further although its contents were already written')
        for i in bad[:1]: r.violation('dropped:%s' % i.fn.base, i.loc(), 'buffered data is discarded here without having been written')


def loadof(f, o):
    d = f.defn(strip(f, o))
    return g_of(d.ops[0]) if d is not None and d.op == 'load' else None


vp.main('V15', check, explanation='All functions of libgst that only serve saving or loading an image, and the callers of the two entry points; every failing outcome of every call in them is walked to the exits.',
        trusted=['clang 18 front end', 'the tables of system calls in lib/oscalls.py'])
