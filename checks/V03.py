#!/usr/bin/env python3
"""V03: no object address survives a point where the collector may run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, gcflow, stale


def reach(cg, roots):
    seen = set(roots); todo = list(roots)
    while todo:
        for g in cg.get(todo.pop(), ()):
            if g not in seen: seen.add(g); todo.append(g)
    return seen


def what(u):
    if u.op == 'call': return 'passed to ' + (u.callee or 'a function')
    t = u.x
    s = '%s+%s' % (t[0], t[2]) if isinstance(t, list) else ''
    return ('read' if u.op == 'load' else 'write') + (' of ' + s if s else '')


def check(r):
    p = cfront.load_vm()
    gc = gcflow.GC(p)
    st = stale.Stale(p, gc)
    r.count('functions_that_may_collect', len(gc.may))
    r.count('collector_entry_points', len(gc.entries))
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.decl or f.name in gc.boot: continue
        s = st.cls.get(f.name, ())
        r.count('functions')
        if not s: continue
        r.count('functions_with_body_addresses'); r.count('body_addresses', len(s))
        n = sum(1 for i in f.calls() if gc.gc_call(f, i))
        if n: r.count('functions_checked'); r.count('collection_points', n)
        bad = list(st.analyse(f))
        r.ob(True, max(n, 1))
        for u, g, v in bad:
            d = f.ins.get(v)
            gn = gc.gc_call(f, g)
            r.ob(False)
            src = 'parameter %d' % v if d is None else 'line %d' % d.line
            r.violation('%s:%s:%s' % (f.base, p.funcs[gn].base if gn in p.funcs else gn, what(u)), '%s:%d' % (u.file or f.file, u.line),
                        'in %s: object address obtained at %s is used (%s) at line %d, after the call at line %d may have run the collector (%s)'
                        % (f.base, src, what(u), u.line, g.line, gc.path(gn)))
    # cached addresses must be recomputed by the collector
    inner = reach(gc.cg, gc.entries)
    for g in sorted(st.bodyglobals):
        ok = any(i.op == 'store' and i.ops[1] == {'g': g} for n in inner if n in p.funcs and not p.funcs[n].decl for i in p.funcs[n].instrs())
        r.count('cached_addresses'); r.ob(ok)
        if not ok:
            w = [(f, i) for f in p.funcs.values() if not f.decl for i in f.instrs() if i.op == 'store' and i.ops[1] == {'g': g}]
            r.violation('global:%s' % g, w[0][1].loc() if w else '?', 'the variable %s holds an object address but the collector never recomputes it' % g)
    r.require('functions_that_may_collect', 400)
    r.require('body_addresses', 1500)
    r.require('functions_checked', 150)
    r.require('collection_points', 500)
    r.require('cached_addresses', 4)
    r.rules = ['no SSA value derived from the body field of an OOP is read, written through or passed on after a call that may reach a mover of bodies, unless reloaded',
               'every variable holding a body address is stored by a function the collector runs',
               'comparing an old address with a reloaded one makes it current on the equal edge',
               'functions called only by the dictionary bootstrap, which runs in an empty eden, are not covered']


vp.main('V03', check, level='other', explanation='May-collect effects over the call graph (indirect calls by structure field, table or signature), body-address propagation through parameters, results and globals, then a per-function liveness dataflow on LLVM IR.',
        trusted=['clang 18 front end and its TBAA annotations', 'only stores to the body field of an OOP outside allocation and image loading move objects', 'addresses stored in heap-allocated C structures are not tracked'])
