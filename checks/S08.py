#!/usr/bin/env python3
"""S08: what a library method does after its built-in operation failed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, stsys, stackint
from strais import falls, raising_selectors, DIAGNOSE

# the receiver is the right answer for the only receivers that make the operation fail (small integers)
BY_DESIGN = {('VMpr_Object_hash', 'hash'), ('VMpr_Object_hash', 'identityHash'), ('VMpr_Object_makeWeak', 'makeWeak'), ('VMpr_Object_tenure', 'tenure')}


def check(r):
    p = cfront.load_vm(); tab = cfront.prim_table(p)
    byname = {e['name']: e for e in tab.values() if e['name']}
    ms = list(stsys.methods_of(stsys.kernel_files())) + list(stsys.methods_of(stsys.package_files(), False))
    raising = raising_selectors(ms)
    r.count('raising_messages', len(raising))
    raising |= DIAGNOSE
    si = stackint.StackInterp(p); memo = {}
    for prim, n, c, m in stsys.primitive_attachments():
        e = byname.get(prim) if isinstance(prim, str) else tab.get(prim)
        if e is None: continue
        k = (e['name'], n)
        if k not in memo:
            res = si.run(e['func'], [('i', e['id']), ('i', n)])
            memo[k] = {o for x in res for o in ((0, 1) if x[0] is None or x[0][0] != 'i' else (1 if x[0][1] else 0,))}
        r.count('methods')
        if 1 not in memo[k]: r.count('cannot_fail'); r.ob(); continue
        if 0 not in memo[k]: r.count('always_hand_over'); r.ob(); continue      # the fallback is the implementation
        if (e['name'], m.sel) in BY_DESIGN:
            r.count('by_design'); r.ob(); continue
        r.count('can_fail')
        mname = '%s%s>>%s' % (c.name, ' class' if m.meta or c.meta else '', m.sel)
        ok = not falls(m.body, raising)
        r.ob(ok)
        if not ok:
            r.violation('ignored:%s' % mname, '%s:%d' % (stsys.rel(m.file), m.line),
                        '%s answers its receiver when %s fails' % (mname, e['name']))
    for n, k in (('methods', 330), ('can_fail', 200), ('cannot_fail', 60)): r.require(n, k)
    r.rules = ['the Smalltalk code after a built-in operation that can fail (decided on the IR of the operation) raises, returns something other than the receiver, or hands the work to another message on every path to its end']


if __name__ == '__main__':
    vp.main('S08', check, level='proof', explanation='which built-in operations can fail comes from the outcomes of their IR; what follows comes from the syntax tree of every method bound to them',
            trusted=['clang 18 front end, the IR dump and the analysis in /verif/lib', 'checkIndexableBounds: and checkIndexableBounds:put: raise (their conditions mirror those of the operations)', 'the four BY_DESIGN pairs fail for small integers only'])
