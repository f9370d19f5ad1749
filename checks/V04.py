#!/usr/bin/env python3
"""V04: objects the VM is using are reachable from a root whenever the collector may run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, gcflow, rooting, popped, stsys, nesting

HOW = {}


def roots(p, fns, sinks):
    """{variable or field: witness} whose value, an object, is passed to the marking or copying function"""
    flow = {(s, 0) for s in sinks}; out = {}; ch = True
    def walk(f, o, i):
        st = [o]; seen = set(); new = False
        while st:
            v = st.pop(); d = f.defn(v)
            if d is None:
                k = f.param(v)
                if k is not None and (f.name, k) not in flow: flow.add((f.name, k)); new = True
                continue
            if d.id in seen: continue
            seen.add(d.id)
            if d.op == 'phi': st += d.ops
            elif d.op == 'select': st += d.ops[1:]
            elif d.op in ('bitcast', 'freeze'): st.append(d.ops[0])
            elif d.op == 'load' and isinstance(d.ops[0], dict) and 'g' in d.ops[0]: out.setdefault(d.ops[0]['g'], i)
            elif d.op == 'load' and isinstance(d.x, list) and not d.x[0].startswith(('any pointer', '?', 'object_s', 'oop_s', 'gst_')) and 'grey' not in d.x[0]:
                out.setdefault('%s+%s' % (d.x[0], d.x[2]), i)
            elif d.op == 'load': st.append(d.ops[0])
            elif d.op == 'gep': st.append(d.x['b'])
        return new
    while ch:
        ch = False
        for n in fns:
            f = p.funcs.get(n)
            if f is None or f.decl: continue
            for i in f.calls():
                for k, o in enumerate(i.ops):
                    if (i.callee, k) in flow and walk(f, o, i): ch = True
    return out


def check(r):
    p = cfront.load_vm(); gc = gcflow.GC(p); rt = rooting.Rooting(p, gc)
    r.count('functions_returning_new_objects', len(rt.fresh)); r.count('functions_that_may_collect', len(rt.may))
    r.count('parameters_that_must_be_rooted', sum(len(v) for v in rt.need.values()))
    # A. results of allocating operations
    for f in rt.fs:
        if f.name in rt.once or f.base in rooting.TEST: r.count('functions_exempt'); continue
        r.count('functions')
        n = sum(1 for i in f.calls() if rt.gc_call(f, i)); r.count('collection_points', n)
        o = rt.origins(f); no = len(o); r.count('new_objects', no)
        if n and no: r.count('functions_checked')
        seen = set()
        def rep(kind, i, o):
            k = '%s:%s:%s:%s' % (f.base, kind, (p.funcs[i.callee].base if i.callee in p.funcs else i.callee) if i.op == 'call' else i.op, p.funcs[o.callee].base if o.callee in p.funcs else o.op)
            if k in seen: return
            seen.add(k)
            r.violation(k, i.loc(), 'in %s: the object made at %s (%s) is %s at %s, and a collection may happen while nothing the collector looks at refers to it'
                        % (f.base, o.loc(), o.callee or o.op, {'use': 'used', 'pass': 'passed to a function that allocates'}.get(kind, kind), i.loc()))
        rt.run(f, rep); r.ob(not seen, max(1, no))
    # B. arguments that an operation takes off the operand stack
    si = popped.Popped(p, rt)
    tab = cfront.prim_table(p); byname = {e['name']: e for e in tab.values() if e['name']}
    jobs = {}
    for prim, n, c, m in stsys.primitive_attachments():
        e = byname.get(prim) if isinstance(prim, str) else tab.get(prim)
        if e: jobs.setdefault((e['name'], n), e)
    done = set()
    for (name, n), e in sorted(jobs.items()):
        si.hits = {}
        si.run(e['func'], [('i', e['id']), ('i', n)])
        r.count('operations'); r.ob(not si.hits)
        for f, i, k, why, what in si.hits.values():
            key = 'popped:%s:%s:%s' % (name, what, (p.funcs[i.callee].base if i.callee in p.funcs else i.callee) if i.op == 'call' else i.op)
            if key in done: continue
            done.add(key)
            r.violation(key, i.loc(), 'operation %s with %d arguments: the operand at depth %d has been taken off the stack and is %s at %s, while the collection that %s may cause can reclaim it'
                        % (name, n, -k, what, i.loc(), why))
    r.count('operation_collection_points', si.points)
    # roots that one of the two collectors misses
    reach = {}
    for ent, sink in (('copy_oops', '_gst_copy_an_oop'), ('mark_oops', '_gst_mark_an_oop_internal')):
        es = {f.name for f in p.by_base(ent)}; ss = {f.name for f in p.by_base(sink)}
        if not es or not ss: raise cfront.AnalysisBroken('%s or %s not found' % (ent, sink))
        seen = set(es); todo = list(es)
        while todo:
            for g in gc.cg.get(todo.pop(), ()):
                if g not in seen: seen.add(g); todo.append(g)
        reach[ent] = roots(p, seen, ss)
        r.count('roots_' + ent[:4], len(reach[ent]))
    for a, b, t in (('copy_oops', 'mark_oops', 'marked in a full collection'), ('mark_oops', 'copy_oops', 'copied in a scavenge')):
        for k, i in sorted(reach[a].items()):
            r.ob(k in reach[b])
            if k not in reach[b]:
                r.violation('root:%s:%s' % (b, k), i.loc(), 'the root %s is looked at here but not %s' % (k, t))
    # C. scopes of temporary roots
    inc = rt.inc
    ns = nesting.Nesting(p, gc)
    push = {a for (a, _), e in ns.ev.items() if e[1] == 1}
    r.count('incubator_additions', inc.addsites); r.count('incubator_scopes', inc.saves); r.count('incubator_restores', inc.restores)
    for fn in inc.kinds:
        f = p.funcs[fn]
        if any(k[0] == 'save' for k in inc.kinds[fn].values()):
            w = None if fn in push else inc.unclosed(f)
            r.ob(w is None)
            if w is not None: r.violation('scope:%s' % f.base, w.loc(), '%s opens a scope of temporary roots and returns on some path with roots added here still in it' % f.base)
    for fn, (vals, w) in sorted(inc.unbalanced.items()):
        f = p.funcs[fn]
        r.violation('depth:%s' % f.base, w.loc(), '%s changes the number of open scopes of temporary roots by %s' % (f.base, ' or '.join('%+d' % v for v in vals)))
    for fn, v in sorted(inc.net.items()):
        r.ob(not v)
        if v: r.violation('depth:%s' % p.funcs[fn].base, '%s:%d' % (p.funcs[fn].file, p.funcs[fn].line), '%s changes the number of open scopes of temporary roots by %+d' % (p.funcs[fn].base, v))
    for fn, w in inc.dirty.items():
        f = p.funcs[fn]
        if f.base.startswith('VMpr_') or f.base in ('_gst_interpret', '_gst_nvmsg_send'):
            r.violation('scope:%s' % f.base, w.loc(), '%s returns with temporary roots left behind' % f.base)
    for k, n in (('functions', 800), ('functions_checked', 100), ('new_objects', 300), ('collection_points', 400), ('operations', 250), ('operation_collection_points', 200), ('incubator_additions', 60), ('incubator_scopes', 20)): r.require(k, n)
    r.rules = ['the result of a function that returns a newly allocated object is not used (dereferenced, stored into an object, passed on to code that uses it after collecting) after a call that may reach the collector, unless before that call it was put in the incubator, stored in a root or in an object reachable from one, or pushed',
               'a slot popped off the operand stack is not used after a collection point unless the same value is also in a live slot or the incubator',
               'a scope of temporary roots that a function opens is closed on every path']


vp.main('V04', check, level='other', explanation='Interprocedural rooting dataflow on LLVM IR: origins are allocating calls and popped operand slots, kills are stores to roots and incubator additions, obligations are uses after may-collect calls; arguments that a callee uses after collecting are obligations of its callers.',
        trusted=['clang 18 front end', 'collections happen only inside object allocation and evaluation', 'an object read out of a reachable object stays reachable as long as the code under analysis runs', 'functions called only at start-up, when eden is empty, are exempt', 'an object whose only copy is put in malloced memory is not followed further'])
