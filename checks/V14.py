#!/usr/bin/env python3
"""V14: built-in operations test the class of what they dereference."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, gcflow, stsys, stworld, tags
from stackint import Exploded

# The conversions of call-out arguments test what they are given themselves:
# (function, parameter).
SELFCHECKING = [('smalltalk_to_c', 0), ('push_smalltalk_obj', 0)]


def check(r):
    p = cfront.load_vm(); gc = gcflow.GC(p)
    tab = cfront.prim_table(p)
    byname = {e['name']: e for e in tab.values() if e['name']}
    world = stworld.kernel()
    small = world.find('SmallInteger')
    chain = list(small.supers()) if small else []
    if len(chain) < 4: raise cfront.AnalysisBroken('superclasses of SmallInteger not found')

    def receives_int(c, m):
        """can the receiver of this method be a SmallInteger?"""
        if m.meta: return False
        own = world.find(c.name, getattr(c, 'ns', 'Smalltalk') or 'Smalltalk') or world.find(c.name)
        if own is None or own not in chain: return False
        for k in chain:
            if m.sel in k.methods: return k is own
        return True
    jobs = {}
    for prim, n, c, m in stsys.primitive_attachments():
        e = byname.get(prim) if isinstance(prim, str) else tab.get(prim)
        if e is not None:
            jobs.setdefault((e['name'], n), (e, []))[1].append((c, m))
    si = tags.Tags(p, gc)
    for (name, n), (e, ms) in sorted(jobs.items()):
        f = p.get(e['func'])
        ints = [receives_int(c, m) for c, m in ms]
        mem = {('c', -n): frozenset(['receiver'])}
        if not any(ints): mem['t', -n] = 'oop'
        elif all(ints) and all(c.name == 'SmallInteger' for c, m in ms): mem['t', -n] = 'int'
        si.hits = {}; before = si.checked
        try:
            res = si.run(e['func'], [('i', e['id']), ('i', n)], 0, frozenset(mem.items()))
        except Exploded:
            raise cfront.AnalysisBroken('too many states in %s with %d arguments' % (e['func'], n))
        r.count('primitive_arity_pairs'); r.count('arguments', n); r.count('uses_checked', si.checked - before)
        if not res:
            r.count('operations_that_abort'); continue      # prints a diagnostic and ends the process
        hits = {}
        for g, i, k, what, need in si.hits.values():
            hits.setdefault((k, what, i.callee and i.callee.split('.')[0] or g.base), (g, i, need))
        r.ob(not hits)
        for (k, what, via), (g, i, need) in sorted(hits.items(), key=lambda x: str(x[0])):
            a = 'receiver' if k == -n else 'argument %d' % (k + n)
            how = {'deref': 'as the address of an object without having excluded small integers',
                   'toint': 'as a small integer without having tested that it is one',
                   'number': 'as an integer of any size without a test of its class'}.get(what, 'as a %s without a test of its class' % what[7:])
            at = need[1].loc() if isinstance(need, tuple) and len(need) > 1 and hasattr(need[1], 'loc') else i.loc()
            meths = ', '.join('%s%s>>%s' % (c.name, ' class' if m.meta else '', m.sel) for c, m in ms[:3])
            r.violation('%s/%d:%s:%s:%s' % (name, n, a, what, via), i.loc(),
                        '%s uses its %s %s (%s, used by %s)' % (name, a, how, at, meths))
    for fn, k in SELFCHECKING:
        fs = [x for x in p.funcs.values() if x.base == fn and not x.decl]
        if not fs: continue
        needs, _ = si.summary(fs[0].name)
        bad = [(what, h) for (n, what, tf), h in needs.items() if n == k]
        r.ob(not bad); r.count('callout_conversions')
        for what, h in bad:
            r.violation('%s:%s' % (fn, what), h[1].loc(), '%s uses the Smalltalk value it converts without testing it (%s)' % (fn, what))
    # arguments that a call-out reads from the context of its method
    for fn in ('_gst_invoke_croutine',):
        f = p.get(fn)
        ks = [k for k, t in enumerate(f.params) if t == 'ptr']
        si.hits = {}; before = si.checked; si.frame = ks[-1] + tags.P0
        mem = {('t', k + tags.P0): 'oop' for k in ks}
        mem.update({('c', k + tags.P0): frozenset(['receiver']) for k in ks})
        si.split.discard(fn); si.flat.add(fn)
        si.run1(fn, [('in', k + tags.P0) if k in ks else None for k in range(len(f.params))], tags.T, frozenset(mem.items()))
        si.frame = None
        args = {h[2] for h in si.hits.values() if h[2] >= tags.ARG}
        r.count('callout_argument_uses', si.checked - before); r.ob(not args)
        for g, i, k, what, need in si.hits.values():
            if k >= tags.ARG:
                r.violation('%s:argument:%s:%s' % (fn, what, i.callee and i.callee.split('.')[0] or g.base), i.loc(), 'an argument of a C call is used (%s) before its class was tested' % what)
    r.cov['helpers_summarised'] = len(si.sums)
    if si.cut: r.notes.append('not followed: ' + ', '.join(sorted(set(g for g, _ in si.cut))))
    r.require('primitive_arity_pairs', 190)
    r.require('uses_checked', 500)
    r.rules = ['an argument is dereferenced only where a test on the path excluded small integers',
               'an argument is converted to a C integer only where a test on the path established a small integer',
               'the fields of an argument are read as those of a class only after some class test of it succeeded',
               'requirements of helper functions are checked at their calls, with what the path established']


vp.main('V14', check, explanation='Every built-in operation with every argument count it is attached with, all paths, helpers summarised.',
        trusted=['clang 18 front end', 'which class test fits which structure is not decided: any successful class test counts',
                 'contents of objects (instance variables of the receiver) are trusted'])
