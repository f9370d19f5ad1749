#!/usr/bin/env python3
"""V01: operand-stack discipline of the VM primitives."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, stsys, stackint
from stackint import T


class watch:
    """Activations met by the walk: what is below the new receiver must be what
    was below the receiver of the operation itself."""
    def __init__(self, si, n):
        self.n = n; self.bad = set(); self.good = 0; si.on_send = self

    def __call__(self, f, i, a, sp, mem):
        if sp == T or a is None or a[0] != 'i': return
        d = sp - a[1] + self.n
        low = [k for k, v in mem.items() if isinstance(k, int) and k < -self.n and v != ('in', k)]
        if d or low: self.bad.add((si_base(f.name), '%s:%d' % (f.file, i.line), d))
        else: self.good += 1


def si_base(n):
    return n.split('.')[0]


def check(r):
    p = cfront.load_vm()
    tab = cfront.prim_table(p)
    byname = {e['name']: e for e in tab.values() if e['name']}
    jobs = {}
    for prim, n, c, m in stsys.primitive_attachments():
        e = byname.get(prim) if isinstance(prim, str) else tab.get(prim)
        if e is None:
            continue       # decided by V02
        jobs.setdefault((e['name'], n), (e, []))[1].append('%s>>%s' % (c.name + (' class' if m.meta else ''), m.sel))
    si = stackint.StackInterp(p)
    for (name, n), (e, ms) in sorted(jobs.items()):
        f = p.get(e['func'])
        def report(key, where, text):
            # one violation per attaching method, so that a finding listed for
            # one method does not hide the same outcome elsewhere
            for m in ms: r.violation('%s@%s' % (key, m), where, text + ' (attached in %s)' % m)
        sends = watch(si, n)
        res = si.run(e['func'], [('i', e['id']), ('i', n)])
        for g, line, d in sorted(sends.bad):
            report('%s/%d:send:%s:%+d' % (name, n, g, d), line, '%s with %d argument(s) activates another method or block with %+d extra slots on the operand stack: they remain after it has returned' % (name, n, d))
        r.count('activations', sends.good + len(sends.bad)); r.ob(not sends.bad)
        r.count('primitive_arity_pairs'); r.count('exit_states', len(res))
        if not res:
            r.count('primitives_that_never_return')
        for ret, sp, mem in sorted(res, key=str):
            if ret is None or ret[0] != 'i':
                outcomes = ['success', 'failure']
            else:
                outcomes = ['failure' if ret[1] else 'success']
            for o in outcomes:
                ok = True
                where = '%s:%d' % (f.file, f.line)
                if sp == T:
                    if o == 'failure' and ret is not None:
                        ok = False
                        report('%s/%d:failure:transferred' % (name, n), where,
                                    '%s with %d argument(s) reports failure after activating another context' % (name, n))
                elif o == 'success':
                    if sp != -n:
                        ok = False
                        report('%s/%d:success:%+d' % (name, n, sp + n), where,
                                    '%s succeeds with the stack pointer moved by %+d; receiver and %d argument(s) must be replaced by one result (%+d)' % (name, sp, n, -n))
                    bad = [k for k, v in mem if isinstance(k, int) and k < -n and v != ('in', k)]
                    if bad:
                        ok = False
                        report('%s/%d:success:clobber' % (name, n), where,
                                    '%s writes stack slots below its receiver' % name)
                else:
                    if sp != 0:
                        ok = False
                        report('%s/%d:failure:%+d' % (name, n, sp), where,
                                    '%s with %d argument(s) can fail with the stack pointer moved by %+d: the fallback method would see the wrong receiver/arguments' % (name, n, sp))
                    bad = [k for k, v in mem if isinstance(k, int) and k <= 0 and v != ('in', k)]
                    if bad:
                        ok = False
                        report('%s/%d:failure:clobber' % (name, n), where,
                                    '%s can fail after overwriting its receiver or arguments (slot %s)' % (name, bad))
                r.ob(ok)
    # built-in operations that the interpreter carries out without going
    # through the primitive table (cached at:/at:put:, block evaluation)
    for fn, na, n in (('cached_index_oop_primitive', 3, 1), ('cached_index_oop_put_primitive', 4, 2), ('send_block_value', 2, None)):
        f = p.funcs.get(fn)
        if f is None or f.decl: continue
        r.count('inline_operations')
        for ret, sp, mem in sorted(si.run(fn, [None] * na), key=str):
            where = '%s:%d' % (f.file, f.line); ok = True
            if ret != ('i', 0) and (sp != 0 or [k for k, v in mem if isinstance(k, int) and k <= 0 and v != ('in', k)]):
                ok = False
                r.violation('%s:failure' % fn, where, '%s can fail with the stack pointer moved by %s or its arguments overwritten: the message sent instead sees the wrong receiver/arguments' % (fn, sp))
            if ret != ('i', 1) and n is not None and ret is not None and sp not in (-n, T):
                ok = False
                r.violation('%s:success' % fn, where, '%s succeeds with the stack pointer moved by %s instead of %d' % (fn, sp, -n))
            r.ob(ok)
    # services of the interpreter that take the arguments of a message: for
    # every small argument count, those are removed, all and nothing else
    for fn, pos, na, out in (('create_args_array', 0, 1, lambda k: -k), ('_gst_send_message_internal', 1, 4, None), ('send_block_value', 0, 2, None)):
        for f in p.by_base(fn):
            if f.decl or len(f.params) != na: continue
            for k in range(4):
                sends = watch(si, k)
                args = [None] * na; args[pos] = ('i', k)
                res = si.run(f.name, args)
                where = '%s:%d' % (f.file, f.line)
                r.count('interpreter_services')
                for g, line, d in sorted(sends.bad):
                    r.violation('%s:send:%s:%+d' % (fn, g, d), line, '%s, called for a message with %d argument(s), activates a method or block with %+d extra slots on the operand stack' % (fn, k, d))
                r.count('activations', sends.good + len(sends.bad)); r.ob(not sends.bad)
                if out is None: continue
                for ret, sp, mem in res:
                    ok = sp == out(k)
                    if not ok: r.violation('%s:%s' % (fn, sp), where, '%s (%d) moves the stack pointer by %s instead of %d' % (fn, k, sp, out(k)))
                    r.ob(ok)
    r.require('activations', 40)
    r.require('primitive_arity_pairs', 190)
    r.require('exit_states', 380)
    r.rules = ['at every failure exit: stack pointer == entry and slots at or below it hold their entry contents',
               'at every success exit: stack pointer == entry - numArgs and no slot below the receiver is written',
               'no failure exit after another context was activated']


vp.main('V01', check, level='other', explanation='Abstract interpretation of the LLVM IR of every primitive for every argument count it is attached with in kernel/*.st and packages/**/*.st.',
        trusted=['clang 18 front end', 'nested call-ins and collections leave the caller\'s stack pointer in place (NEUTRAL list in lib/stackint.py)'])
