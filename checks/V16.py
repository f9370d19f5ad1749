#!/usr/bin/env python3
"""V16: failed, interrupted and partial system calls."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, fault
from nesting import strip
from oscalls import *
from oscalls import ALL, COUNT, EINTR, EIO, NOTICE, RESTART, STAT

def registered(p):
    """functions that Smalltalk calls directly: they pass the result and errno on"""
    out = set()
    for f in p.funcs.values():
        if f.decl: continue
        for i in f.calls():
            if p.funcs.get(i.callee) is not None and p.funcs[i.callee].base == '_gst_define_cfunc':
                for o in i.ops:
                    if isinstance(o, dict) and 'g' in o and o['g'] in p.funcs: out.add(o['g'])
    return out


def check(r):
    p = cfront.load_vm(); C = Calls(p); mk = markers(p); reg = registered(p)
    for n, (e, names) in sorted(C.wrap.items()): r.samples.append('%s answers the error of %s' % (n, ', '.join(sorted(names))))
    for (fn, _), (k, i) in sorted(C.sites.items()):
        f = p.funcs[fn]; err, oks, names = k; name = C.base(i.callee); site = '%s:%s' % (f.base, name)
        W = fault.Walk(p)
        r.count('call_sites')
        direct = name in ALL
        sinks = []
        rd = []; stat = None
        if name in STAT and STAT[name] is not None and STAT[name] < len(i.ops):
            stat = root(f, i.ops[STAT[name]])
            if stat is not None and (stat.op != 'alloca' or initialised(f, i, i.ops[STAT[name]])): stat = None
        over = set()
        def onload(j):
            if stat is not None and root(f, j.ops[0]) is stat and j.ops[0] not in over: rd.append(j)
        def watch(ff, j, a, en):
            if ff is f and j is i: return 'again'
            if p.funcs.get(j.callee) is not None and p.funcs[j.callee].base == '_gst_set_errno': return ('errno', a[0])
            return None
        fe = W.run(f, i, err, True, errno=EIO, sink=lambda s, j: sinks.append((s, j)), watch=watch, onload=onload)
        ok = []; st = []
        for o in oks: ok += W.run(f, i, o, False, errno=fault.STALE, stale=lambda j: st.append(j))
        S = {outcome(e) for e in ok}; F = {outcome(e) for e in fe}

        # A: the error result is not used as a value
        bad = []; marked = False
        sinks += [('stored', x[2]) for e in fe for x in e.trace if isinstance(x, tuple) and x[0] == 'cell']
        for s, j in sinks:
            if s == 'stored':
                kk = key(j.ops[1], j.fn)
                if kk is not None and kk in mk.get(err, ()): marked = True; continue
                if kk is None and root(j.fn, j.ops[1]) is not None and root(j.fn, j.ops[1]).op == 'alloca': continue
            if s.startswith('argument') and name == 'fcntl': continue    # flags of a descriptor that is valid
            bad.append((s, j))
        if name not in ('close', 'fcntl'):
            for e in fe:
                if 'tagged' in e.trace and e.kind == 'ret' and outcome(e) in S: bad.append(('tagged', e.i))
        else: bad = [b for b in bad if b[0] not in ('stored',)]
        r.ob(not bad)
        for s, j in bad[:1]:
            r.violation('use:%s:%s' % (site, s.split(':')[0]), j.loc(), 'the error result of %s (%s) is used as a value here (%s)' % (name, i.loc(), s))

        # B: the failure makes a difference
        if names & NOTICE and not (fn in reg and i.callee in reg):
            skip = False
            if name == 'lseek':
                d = f.defn(strip(f, i.ops[1]))
                skip = i.ops[1] == 0 or d is not None and d.op == 'call' and d.callee == 'lseek' or \
                    d is not None and d.op == 'phi' and all(f.defn(strip(f, x)) is not None and f.defn(strip(f, x)).op == 'call' for x in d.ops)
            if name in ('write', 'send') and i.ops[2] == 0: skip = True
            if name == 'poll' and f.ret == 'void': skip = True       # what is polled again later
            if name in STAT and STAT[name] is not None and stat is None: skip = True
            if not skip:
                S1 = {outcome(e) for e in W.run(f, i, oks[-1], False, watch=lambda ff, j, a, en: 'stop' if ff is f and j is i else None) if e.kind != 'stop'}
                r.count('failures_noticed'); good = bool(S1 - F) or not S1 or any(o[1] == '?' for o in F) and (marked or tested(f, i))
                r.ob(good)
                if not good: r.violation('unnoticed:%s' % site, i.loc(), '%s continues in the same way whether %s fails or not' % (f.base, name))

        # C: interruption
        if direct and name in RESTART and fn not in reg and not (name in ('write', 'send') and i.ops[2] == 0):
            ie = W.run(f, i, err, True, errno=EINTR, watch=lambda ff, j, a, en: 'stop' if ff is f and j.callee == i.callee else None)
            lost = [e for e in ie if e.kind != 'stop']
            r.count('restarted'); r.ob(not lost)
            for e in lost[:1]: r.violation('restart:%s' % site, e.i.loc(), '%s does not restart %s (%s) when a signal interrupts it' % (f.base, name, i.loc()))

        # D: errno is looked at after a failure only
        bade = [e.i for e in ok if e.kind == 'ret' and e.val in (fault.STALE, fault.SCMP)] + st
        r.ob(not bade)
        for j in bade[:1]: r.violation('errno:%s' % site, j.loc(), 'errno is looked at here although %s (%s) succeeded' % (name, i.loc()))

        # E: the buffer that a failed call did not fill is not read
        if stat is not None:
            r.count('result_buffers'); r.ob(not rd)
            for j in rd[:1]: r.violation('unfilled:%s' % site, j.loc(), 'the result of %s (%s) is read here after it failed' % (name, i.loc()))

        # F: a count is used
        if names & COUNT and not (len(i.ops) > 2 and i.ops[2] in (0, 1)):
            used = count_used(f, i)
            r.count('counts'); r.ob(used)
            if not used: r.violation('count:%s' % site, i.loc(), 'the number of bytes answered by %s is only compared: a short count goes unnoticed' % name)

            # F2: what is asked for next continues where the last transfer ended
            if len(i.ops) > 2:
                d = dependent(f, i)
                b, n = i.ops[1] in d, i.ops[2] in d
                if b or n:
                    r.count('resumed_transfers'); r.ob(b and n)
                    if b != n: r.violation('resume:%s' % site, i.loc(), 'the transfer is continued here with %s but %s' % (('an address that follows the bytes moved', 'a size that does not') if b else ('a size that follows the bytes moved', 'at the same address')))

        # G: a primitive that fails reports the error of the call
        if f.base.startswith('VMpr_') and names & NOTICE and name != 'lseek':
            lose = [e for e in fe if e.kind == 'ret' and outcome(e) not in S and e.errno != 0 and ('errno', EIO) not in e.trace]
            r.count('errors_reported'); r.ob(not lose)
            for e in lose[:1]: r.violation('report:%s' % site, i.loc(), '%s fails after %s without recording the error of the call' % (f.base, name))
    r.require('call_sites', 80); r.require('failures_noticed', 40); r.require('restarted', 4); r.require('counts', 12)
    r.rules = ['the error value of a system call reaches no argument, address, small integer or memory cell, except cells that are compared with it where they are used',
               'a function in which an input/output call fails leaves in a way in which it does not leave when the call succeeds',
               'read, write, recvfrom, send and poll are executed again when they fail with EINTR, except in functions whose result goes straight to Smalltalk',
               'no branch and no result depends on errno after a call that succeeded', 'the buffer of a failed stat-like call is not read unless it was initialised',
               'byte counts are used, not only compared', 'a transfer that is continued asks for the remaining bytes at the address after those moved', 'a failing file primitive records the errno of the call that failed']


def tested(f, i):
    """some branch or selection depends on result i"""
    seen = set(); st = [i.id]
    while st:
        v = st.pop()
        if v in seen: continue
        seen.add(v)
        for j in f.instrs():
            if '%%%d' % v not in [o for o in j.ops if isinstance(o, str)]: continue
            if j.op in ('br', 'switch') or j.op == 'select' and j.ops[0] == '%%%d' % v: return True
            if j.op in ('phi', 'select', 'sext', 'zext', 'trunc', 'freeze', 'icmp', 'and', 'or', 'xor'): st.append(j.id)
    return False


def count_used(f, i):
    seen = set(); st = [i.id]
    while st:
        v = st.pop()
        if v in seen: continue
        seen.add(v)
        for j in f.instrs():
            if '%%%d' % v not in [o for o in j.ops if isinstance(o, str)]: continue
            if j.op in ('icmp', 'br', 'switch'): continue
            if j.op in ('phi', 'select', 'sext', 'zext', 'trunc', 'freeze'): st.append(j.id); continue
            return True
    return False


def dependent(f, i):
    """operands computed from the result of i"""
    use = {}
    for j in f.instrs():
        for o in j.ops:
            if isinstance(o, str): use.setdefault(o, []).append(j)
    out = set(); st = ['%%%d' % i.id]
    while st:
        v = st.pop()
        if v in out: continue
        out.add(v)
        st += ['%%%d' % j.id for j in use.get(v, ()) if j.op not in ('icmp', 'br', 'switch', 'call', 'load', 'store')]
    return out


vp.main('V16', check, explanation='Every call of an input/output system call in libgst and of every VM function that answers the error result of one, with the paths after the call walked for each outcome.',
        trusted=['clang 18 front end', 'the tables of system calls and of their results in checks/V16.py', 'free and string functions leave errno alone'])
