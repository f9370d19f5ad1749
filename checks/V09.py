#!/usr/bin/env python3
"""V09: native memory is released exactly once on every path."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, gcflow, owner, cparams, handles
from nesting import g_of, strip

# run once, when the process starts: what they keep lives as long as the process
ONCE = ('_gst_initialize',)
# variables set when the process starts, or whose contents are taken over by a function
KEPT = ('_gst_cur_bytecodes', '_gst_image_file_path', '_gst_kernel_file_path', '_gst_executable_path', '_gst_user_file_base_path')
TEXT = dict(leak='is not released on the path that ends here', again='is allocated again while the previous block is still owned',
            double='is released a second time here', use='is used here after it was released', returned='is returned after it was released',
            uninit='is used before it is initialised')


def check(r):
    p = cfront.load_vm(); gc = gcflow.GC(p); o = owner.Owner(p, gc)
    o.solve(); o.solve_structs(); o.solve_fields()
    r.count('allocating_functions', sum(1 for s in o.summ.values() if s['ret']))
    r.count('consuming_parameters', sum(1 for s in o.summ.values() for v in s['par'].values() if v == 'free'))
    for f in p.funcs.values():
        if f.decl or f.base in ONCE: continue
        bad = []
        n = o.check(f, lambda kind, i, site: bad.append((kind, i, site)))
        r.count('allocation_sites', n); r.ob(True, n)
        if n: r.samples.append('%s: %d blocks' % (f.base, n))
        for kind, i, site in bad:
            r.discharged -= 1
            r.violation('%s:%s:%s' % (kind, f.base, (p.funcs[site.callee].base if site.callee in p.funcs else site.callee) if site.op == 'call' else 'unlinked'), i.loc(),
                        'the block obtained at %s in %s %s' % (site.loc(), f.base, TEXT[kind]))
        bad = []
        n = o.check_structs(f, lambda kind, i, a: bad.append((kind, i, a)))
        r.count('structures', n); r.ob(True, n)
        for kind, i, a in bad:
            r.discharged -= 1
            r.violation('struct-%s:%s:%d' % (kind, f.base, a.id), i.loc(), 'a %s of %s %s' % (a.x[0].replace('struct.', ''), f.base, TEXT[kind]))
        # releasing a parameter on one path only
        for k, t in enumerate(f.params):
            if t != 'ptr': continue
            bad = []
            if not o.params(f, k, lambda kind, i, site: bad.append((kind, i))): continue
            r.count('released_parameters'); r.ob(not bad)
            for kind, i in bad:
                r.violation('partial-%s:%s:%d' % (kind, f.base, k), i.loc(), '%s releases its argument %d on some paths, but it %s' % (f.base, k + 1, TEXT[kind]))
    # blocks held by global variables
    own = {}; freed = set()
    for f in p.funcs.values():
        if f.decl: continue
        for i in f.instrs():
            if i.op == 'store' and g_of(i.ops[1]) and f.base not in ONCE:
                d = f.defn(strip(f, i.ops[0]))
                if d is not None and d.op == 'call' and o.fresh(d)[0]: own.setdefault(g_of(i.ops[1]), i)
            elif i.op == 'call':
                for j, a in enumerate(i.ops):
                    if o.par(i, j) == 'free': freed |= {g_of(d.ops[0]) for d in o.loadsof(f, a)}
    for g, i in sorted(own.items()):
        if g in KEPT: continue
        r.count('owning_globals'); r.ob(g in freed)
        if g not in freed: r.violation('global:%s' % g, i.loc(), 'the block stored in %s is never released' % g)
    # blocks that hang off released structures
    for k, i in sorted(o.ownfields.items()):
        if k[0] not in o.freetypes: continue
        ok = k in o.freefields
        r.count('owning_fields'); r.ob(ok)
        if not ok: r.violation('field:%s:%d' % k, i.loc(), 'the block stored at offset %d of a %s is never released although the structure is (%s)' % (k[1], k[0], o.freetypes[k[0]].loc()))
    # the block a location holds is not forgotten when another is stored there
    o.solve_held(); own = {g for g in own if g in freed}; o.solve_writers(own)
    for f in p.funcs.values():
        if f.decl or f.base in ONCE: continue
        todo = [(g, lambda a, g=g: g_of(a) == g, 'the variable ' + g) for g in sorted(own)]
        todo += [(None, lambda a, b=b, off=off: o.baseoff(f, a) == (b, off), 'offset %d of a %s' % (off, t)) for t, off, b in sorted(o.owned_locations(f))]
        for key, isloc, name in todo:
            bad = []
            n = o.detached(f, key, isloc, lambda kind, i, site: bad.append((kind, i, site)))
            r.count('overwritten_locations', n); r.ob(not bad, n or 1)
            for kind, i, site in bad:
                if kind == 'overwritten': r.violation('overwritten:%s:%s' % (f.base, name), site.loc(), 'the block held by %s is forgotten when %s stores another value there' % (name, f.base))
                else: r.violation('%s:%s:%s' % (kind, f.base, name), i.loc(), 'the block held by %s %s' % (name, TEXT[kind]))
        # a structure is released after the blocks it holds
        for i, t in o.node_releases(f):
            ff = o.freed_fields(f, t)
            for _, off in sorted(x for x in o.heldfields if x[0] == t):
                r.count('released_holders'); r.ob(off in ff)
                if off not in ff: r.violation('holder:%s:%s:%d' % (f.base, t, off), i.loc(), '%s releases a %s but not the block at its offset %d' % (f.base, t, off))
        for i, t, off, bad in o.frame_fields(f):
            r.count('frame_holders'); r.ob(bad is None)
            if bad is not None: r.violation('frame:%s:%s:%d' % (f.base, t, off), bad.loc(), 'the block stored at %s at offset %d of a %s in the frame of %s is not released on the path that ends here' % (i.loc(), off, t, f.base))
    # structures with variants
    h = handles.Handles(p, gc)
    for f, tag, need, offs, s, ok, g in o.variants(h.acq):
        r.count('variant_members'); r.ob(ok)
        if not ok:
            r.violation('variant:%s:%s' % (f.base, need), s.loc(), 'what %s stores at offset %s of a structure of kind %s (%s) is not given up by %s for that kind' % (f.base, '/'.join(map(str, offs)), tag, need, g.base))
    # file descriptors and obstacks
    for f in p.funcs.values():
        if f.decl or f.base in ONCE: continue
        bad = {}
        n = h.check(f, lambda kind, i, site: bad.setdefault((kind, i.loc(), site.loc())))
        r.count('descriptors', n); r.ob(not bad, n)
        for kind, w, site in bad:
            r.violation('descriptor-%s:%s' % (kind, f.base), w, 'the file descriptor obtained at %s in %s %s' % (site, f.base, TEXT[kind].replace('released', 'closed').replace('block', 'descriptor')))
        for i, w in h.obstacks(f):
            r.count('obstacks'); r.ob(w is None)
            if w is not None: r.violation('obstack:%s' % f.base, w.loc(), 'the obstack set up at %s in %s is not released on the path that ends here' % (i.loc(), f.base))
    # blocks obtained for the arguments of a call-out
    cparams.check(r, p, cparams.names(cfront.REPO))
    r.require('allocation_sites', 80); r.require('structures', 20); r.require('descriptors', 6); r.require('overwritten_locations', 15); r.require('consuming_parameters', 3)
    r.rules = ['for every declared type of argument and every outcome of its conversion, the block obtained for it is released once, and nothing else is, whether the call is made or refused',
               'a block returned by a function of the malloc family, by a function that answers fresh memory on all paths, or stored by asprintf, is released, returned, stored or handed over exactly once on every path',
               'nothing is read through, released or returned again after it was released; a failed realloc keeps its argument',
               'a function that releases a block passed to it does so (or keeps it) on all paths',
               'a block stored in a global variable, or in a structure that is itself released, is released by some operation; a node unlinked from a list is released or kept',
               'a variable, or a field of a structure in a frame or in another structure, that holds a block is not overwritten before the block is released or handed over, and its structure is not released before it',
               'what the constructor of a kind of input stream obtains (blocks, descriptors, registered objects) its destructor gives up for that kind',
               'a file descriptor obtained by open, mkstemp, dup, pipe or socketpair is closed once, returned or stored; an obstack in a frame is given up on every path',
               'structures that hold such a block (%s) are initialised before use and cleared exactly once on every path on which they may have been filled' % ', '.join(sorted(o.owned_types))]


vp.main('V09', check, explanation='Every function of libgst that obtains or releases native memory, all paths (path conditions tested more than once and constants merged by phi nodes are correlated).',
        trusted=['clang 18 front end', 'a block whose address is stored in memory that is not local or passed to a function that stores it has found its owner', 'unknown library functions neither release nor keep their arguments, except those listed in lib/owner.py'])
