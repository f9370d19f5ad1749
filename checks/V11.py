#!/usr/bin/env python3
"""V11: what signal handlers do is async-signal-safe."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, cfront, gcflow, stale

# POSIX.1-2016 async-signal-safe functions that may occur, and pure functions of the C library
SAFE = set('''_Exit _exit abort accept access aio_error aio_return aio_suspend alarm bind cfgetispeed chdir chmod chown clock_gettime close
connect creat dup dup2 execl execle execv execve faccessat fchdir fchmod fchown fcntl fcntl64 fdatasync fork fstat fstat64 fsync ftruncate getegid
geteuid getgid getgroups getpeername getpgrp getpid getppid getsockname getsockopt getuid kill link listen lseek lseek64 lstat mkdir
mkfifo mknod open open64 openat pause pipe pipe2 poll posix_trace_event pselect pthread_kill pthread_self pthread_sigmask raise read readlink
recv recvfrom recvmsg rename rmdir select sem_post send sendmsg sendto setgid setpgid setsid setsockopt setuid shutdown sigaction
sigaddset sigdelset sigemptyset sigfillset sigismember signal sigpause sigpending sigprocmask sigqueue sigset sigsuspend sleep
sockatmark socket socketpair stat stat64 symlink tcdrain tcflow tcflush tcgetattr tcgetpgrp tcsendbreak tcsetattr tcsetpgrp time
timer_getoverrun timer_gettime timer_settime times umask uname unlink utime wait waitpid write writev setitimer getitimer
memcpy memmove memset memcmp memchr bcmp bcopy bzero strlen strnlen strcpy strncpy strcat strncat strcmp strncmp strchr strrchr strstr
htonl htons ntohl ntohs abs labs __errno_location mprotect mmap munmap backtrace_symbols_fd sched_yield gettid __xpg_strerror_r'''.split())
CAT = {'malloc': 'heap', 'free': 'heap', 'realloc': 'heap', 'calloc': 'heap', 'strdup': 'heap', 'memalign': 'heap', 'posix_memalign': 'heap',
       'longjmp': 'nonlocal exit', '_longjmp': 'nonlocal exit', 'siglongjmp': 'nonlocal exit'}
SYNC = {4, 5, 7, 8, 11}          # SIGILL SIGTRAP SIGBUS SIGFPE SIGSEGV: raised by the interrupted instruction itself
DIE = {'abort', '_exit', '_Exit', 'exit', 'quick_exit', '__assert_fail', '__stack_chk_fail'}
ERRNO = set('waitpid wait wait4 read write poll select ioctl fcntl open close send recv accept connect kill fsync lseek pselect sigsuspend nanosleep'.split())


def category(name):
    if name in CAT: return CAT[name]
    if name.startswith('pthread_') or name.startswith('sem_') or name in ('flock', 'lockf', 'flockfile'): return 'lock'
    if 'printf' in name or name.startswith('snv_') or name in ('fputs', 'fputc', 'puts', 'putchar', 'putc', 'fwrite', 'fread', 'fflush', 'fopen', 'fclose', 'perror', '_IO_putc', 'fgets', 'getc', 'fgetc', 'syslog'): return 'buffered output'
    return 'other (%s)' % name


def check(r):
    p = cfront.load_vm(); gc = gcflow.GC(p); st = stale.Stale(p, gc)
    # ---- installers: functions that store a parameter in sigaction.sa_handler, or hand it to one that does
    inst = {}          # func -> set((handler param, signal param or constant or None))
    sinks = {'signal': (1, 0), 'sigset': (1, 0), 'bsd_signal': (1, 0), 'sysv_signal': (1, 0), '__sysv_signal': (1, 0)}
    regs = {}          # handler -> set of signals (int or None)
    unknown = []
    def sigof(f, o):
        return o if isinstance(o, int) else ('p', f.param(o)) if f.param(o) is not None else None
    def value(f, v, sig, where):
        """v reaches a handler slot in f for signal sig"""
        new = False
        for x in leaves(f, v):
            if isinstance(x, dict) and x.get('g') in p.funcs:
                s = regs.setdefault(x['g'], set()); q = sig if isinstance(sig, int) else None
                if q not in s: s.add(q); new = True
            elif f.param(x) is not None:
                s = inst.setdefault(f.name, set())
                e = (f.param(x), sig)
                if e not in s: s.add(e); new = True
            elif isinstance(x, (int, dict)) or x in ('null', 'undef', 'poison'): pass
            else:
                d = f.defn(x)
                if d is not None and d.op == 'load' and any(place(f, c.ops[2]) == place(f, d.ops[0]) for c in f.calls()
                                                            if c.callee in ('sigaction', '__sigaction')): continue   # restores an earlier handler
                if d is not None and d.op == 'call' and (d.callee in inst or d.callee in sinks): continue           # likewise
                if d is not None and d.op == 'load' and isinstance(d.ops[0], dict) and d.ops[0].get('g') in gc.globfn:
                    for n in gc.globfn[d.ops[0]['g']]:
                        s = regs.setdefault(n, set())
                        if None not in s: s.add(None); new = True
                    continue
                unknown.append((f, where))
        return new
    def place(f, o):
        off = 0
        d = f.defn(o)
        while d is not None and d.op in ('gep', 'bitcast', 'freeze') and not (d.op == 'gep' and d.x['v']):
            if d.op == 'gep': off += d.x['o']; o = d.x['b']
            else: o = d.ops[0]
            d = f.defn(o)
        return (o if isinstance(o, str) else str(o)), off
    def leaves(f, o, seen=None):
        seen = set() if seen is None else seen
        d = f.defn(o)
        if d is None: return [o]
        if d.id in seen: return []
        seen.add(d.id)
        if d.op == 'phi': return [x for v in d.ops for x in leaves(f, v, seen)]
        if d.op == 'select': return [x for v in d.ops[1:] for x in leaves(f, v, seen)]
        if d.op in ('bitcast', 'freeze'): return leaves(f, d.ops[0], seen)
        return [o]
    ch = True
    while ch:
        ch = False; unknown = []
        for f in p.funcs.values():
            if f.decl: continue
            for c in f.calls():
                if c.callee not in ('sigaction', '__sigaction') or c.ops[1] == 'null': continue
                base, off = place(f, c.ops[1])
                k = 0
                for i in f.instrs():
                    if i.op == 'store' and place(f, i.ops[1]) == (base, off):
                        k += 1
                        if value(f, i.ops[0], sigof(f, c.ops[0]), i): ch = True
                if not k and not (isinstance(base, str) and f.param(base) is not None): unknown.append((f, c))
            for i in f.calls():
                for hp, sp in ([sinks[i.callee]] if i.callee in sinks else sorted(inst.get(i.callee, ()), key=str)):
                    if hp >= len(i.ops): continue
                    if i.callee in sinks: s = sigof(f, i.ops[sp])
                    elif isinstance(sp, tuple): s = sigof(f, i.ops[sp[1]])
                    else: s = sp
                    if value(f, i.ops[hp], s, i): ch = True
    for f, i in unknown:
        raise cfront.AnalysisBroken('%s: a handler of unknown origin is installed by %s' % (i.loc(), f.base))
    # a handler that installs itself again does so for the signal it received
    handlers = {}
    for h, s in regs.items():
        f = p.funcs.get(h)
        if f is None or f.decl: continue
        own = False
        outside = set()
        for g in p.funcs.values():
            if g.decl: continue
            for i in g.calls():
                for hp, sp in sorted(inst.get(i.callee or '', ()), key=str):
                    if hp < len(i.ops) and isinstance(i.ops[hp], dict) and i.ops[hp].get('g') == h:
                        sg = i.ops[sp[1]] if isinstance(sp, tuple) else sp
                        if g.name == h and g.param(sg) == 0: continue
                        outside.add(sg if isinstance(sg, int) else None)
        handlers[h] = outside or s
    r.count('handlers', len(handlers))

    # ---- blocks from which the process certainly dies
    always = set()
    def diecall(f, i):
        if i.op != 'call': return False
        c = i.callee
        if c in DIE or c in always: return True
        g = p.funcs.get(c) if c else None
        if g is not None and g.noreturn and c not in CAT: return True
        # raising the signal that is being handled, with its default action
        if c == 'raise' and (f.name in handlers and f.param(i.ops[0]) == 0 or i.ops[0] in (6, 9)): return True
        if c == 'kill' and i.ops[1] in (6, 9): return True
        return False
    dmemo = {}
    def dying(f):
        """set of (block) -> index from which (downwards: before) everything leads to death"""
        if f.name in dmemo: return dmemo[f.name]
        n = len(f.blocks)
        last = [max([k for k, i in enumerate(b) if diecall(f, i)], default=-1) for b in f.blocks]
        die = [l >= 0 for l in last]      # block entry certainly reaches death
        # greatest fixed point of "all successors die" is too strong on loops; least fixed point
        ch = True
        while ch:
            ch = False
            for b in range(n):
                if die[b]: continue
                s = f.succs(b)
                if s and all(die[t] for t in s): die[b] = True; ch = True
                if f.term(b).op == 'unreachable' and not s:
                    # after a call that does not return other than by longjmp
                    if not any(i.op == 'call' and i.callee in CAT for i in f.blocks[b]): die[b] = True; ch = True
        out = []
        for b in range(n):
            s = f.succs(b)
            tail = bool(s) and all(die[t] for t in s) or (f.term(b).op == 'unreachable' and die[b])
            out.append(len(f.blocks[b]) if tail else last[b])     # instructions with index <= this are in the dying region
        dmemo[f.name] = out
        return out
    ch = True
    while ch:
        ch = False; dmemo.clear()
        for f in p.funcs.values():
            if f.decl or f.name in always: continue
            d = dying(f)
            if f.blocks and (d[0] >= 0 and (d[0] == len(f.blocks[0]) or any(diecall(f, i) for i in f.blocks[0]))):
                always.add(f.name); ch = True
    dmemo.clear()

    def direct(f):
        """unsafe effects of f's own instructions outside its dying region: [(category, instr, what)], and calls"""
        out = []; calls = []
        d = dying(f); body = st.cls.get(f.name, ())
        # variables that the interrupted code updates as well
        ld = set(); stg = {}
        for b in f.rpo():
            for k, i in enumerate(f.blocks[b]):
                if k <= d[b]: continue
                if i.op == 'load' and isinstance(i.ops[0], dict) and set(i.ops[0]) == {'g'}: ld.add(i.ops[0]['g'])
                if i.op == 'store' and isinstance(i.ops[1], dict) and set(i.ops[1]) == {'g'}: stg.setdefault(i.ops[1]['g'], i)
        for g in sorted(ld & set(stg)):
            if writers.get(g, set()) - sigreach: out.append(('unsynchronised update', stg[g], g))
        # blocks that control reaches
        for b in f.rpo():
            for k, i in enumerate(f.blocks[b]):
                if k <= d[b]: continue
                if i.op == 'store' and isinstance(i.ops[1], str) and i.ops[1][0] == '%' and int(i.ops[1][1:]) in body:
                    out.append(('object memory', i, 'a store into a Smalltalk object'))
                if i.op == 'call':
                    if isinstance(i.x, dict) and i.x.get('k') == 'asm': continue
                    for c in gc.callees(f, i):
                        g = p.funcs.get(c)
                        if g is None or g.decl:
                            if c in SAFE or c.startswith('llvm.'): continue
                            out.append((category(c), i, c))
                        else: calls.append((i, c))
        return out, calls
    writers = {}
    for f in p.funcs.values():
        if f.decl or f.name in gc.boot: continue
        for i in f.instrs():
            t = i.ops[1] if i.op == 'store' else i.ops[0] if i.op in ('cmpxchg', 'atomicrmw') else None
            if isinstance(t, dict) and set(t) == {'g'}: writers.setdefault(t['g'], set()).add(f.name)
    sigreach = set(handlers); todo = list(handlers)
    while todo:
        for c in gc.cg.get(todo.pop(), ()):
            if c not in sigreach and c in p.funcs and not p.funcs[c].decl: sigreach.add(c); todo.append(c)
    emap = {}
    def effects(n):
        """{(category, what): example} of n and everything it calls"""
        if n in emap: return emap[n]
        seen = {n: None}; work = [n]; res = {}
        while work:
            m = work.pop(0); f = p.funcs[m]
            o, c = direct(f)
            for cat, i, what in o:
                if (cat, what) not in res:
                    path = [m]
                    while seen[path[-1]]: path.append(seen[path[-1]])
                    res[cat, what] = (i, ' -> '.join(reversed(path)))
            for i, g in c:
                if g not in seen: seen[g] = m; work.append(g)
        emap[n] = res
        return res

    sigonly = {h for h in handlers}
    callers = {}
    for a, s in gc.cg.items():
        for b in s: callers.setdefault(b, set()).add(a)
    ch = True
    while ch:
        ch = False
        for n, f in p.funcs.items():
            if f.decl or n in sigonly or n in gc.taken: continue
            c = callers.get(n, set()) - {n}
            if c and c <= sigonly: sigonly.add(n); ch = True

    for h, sigs in sorted(handlers.items()):
        f = p.funcs[h]
        if sigs and all(s in SYNC for s in sigs if s is not None) and None not in sigs:
            r.count('synchronous_handlers'); continue
        r.count('asynchronous_handlers')
        seen = {h}; work = [h]; bad = False
        while work:
            n = work.pop(0); g = p.funcs[n]
            r.count('signal_context_functions')
            out, calls = direct(g)
            for cat, i, what in out:
                bad = True
                r.violation('%s:%s:%s' % (f.base, cat, what), i.loc(), 'signal handler %s: %s uses %s, which is not async-signal-safe (%s)' % (f.base, g.base, what, cat))
            for i, c in calls:
                if c in seen: continue
                seen.add(c)
                if c in sigonly: work.append(c); continue
                for (cat, what), (j, path) in sorted(effects(c).items()):
                    bad = True
                    r.violation('%s:%s:%s' % (f.base, cat, what), i.loc(), 'signal handler %s: %s calls %s, which reaches %s, not async-signal-safe (%s; %s at %s)'
                                % (f.base, g.base, p.funcs[c].base, what, cat, path, j.loc()))
        r.ob(not bad)
        # ---- errno: a handler that returns leaves it alone
        for n in sorted(seen & sigonly):
            g = p.funcs[n]; d = dying(g)
            risky = [i for i in g.calls() if i.callee in ERRNO and i.idx > d[i.bb]]
            if not risky: continue
            r.count('errno_obligations')
            eloc = {i.id for i in g.calls() if i.callee == '__errno_location'}
            def iserr(o):
                x = g.defn(o); return x is not None and x.id in eloc
            saved = {i.id for i in g.instrs() if i.op == 'load' and iserr(i.ops[0])}
            idom = g.dominators()
            def dominates(a, b):
                if a.bb == b.bb: return a.idx < b.idx
                x = b.bb
                while x != 0:
                    x = idom[x]
                    if x == a.bb: return True
                return False
            okload = {s for s in saved if all(dominates(g.ins[s], i) for i in risky)}
            # a clobber is pending until errno is stored back
            IN = {0: False}; work2 = [0]; leak = None
            while work2:
                b = work2.pop(); v = IN[b]
                for i in g.blocks[b]:
                    if i in risky: v = True
                    if i.op == 'store' and iserr(i.ops[1]) and g.defn(i.ops[0]) is not None and g.defn(i.ops[0]).id in okload: v = False
                    if i.op == 'ret' and v: leak = leak or i
                for s in g.succs(b):
                    if s not in IN or (v and not IN[s]): IN[s] = v or IN.get(s, False); work2.append(s)
            r.ob(leak is None)
            if leak is not None and n == h or leak is not None:
                r.violation('%s:%s:errno' % (f.base, g.base), risky[0].loc(), 'signal handler %s: %s may change errno under the interrupted code' % (f.base, risky[0].callee))
    r.samples = ['%s: %s' % (p.funcs[h].base, sorted(map(str, s))) for h, s in sorted(handlers.items())]
    r.require('asynchronous_handlers', 5)
    r.rules = ['functions that reach sigaction(2) as a handler, through any chain of wrappers, are signal context',
               'outside paths that certainly end the process they reach only async-signal-safe functions, store into no Smalltalk object, and update no variable of the interrupted code by a separate load and store',
               'a handler that makes a system call that can fail restores errno']


vp.main('V11', check, explanation='All installed signal handlers of the virtual machine and everything they call.',
        trusted=['clang 18 front end', 'the table of async-signal-safe functions (POSIX.1-2016 2.4.3) in checks/V11.py', 'handlers of synchronous faults (SIGSEGV of the write barrier) only run at heap stores'])
