"""System calls, their results, and the VM functions that pass their errors on."""
import fault
from nesting import g_of, strip
from sccp import _sg

STATUS = {'connect', 'bind', 'listen', 'getsockname', 'getpeername', 'getsockopt', 'setsockopt', 'fstat', 'stat', 'lstat', 'ftruncate',
          'pipe', 'socketpair', 'utimes', 'chown', 'chdir', 'mkdir', 'close', 'shutdown', 'munmap', 'mprotect', 'fsync', 'rename',
          'unlink', 'rmdir', 'chmod', 'kill', 'waitpid', 'ioctl', 'fcntl'}
COUNT = {'read', 'write', 'pread', 'pwrite', 'recv', 'recvfrom', 'recvmsg', 'send', 'sendto', 'sendmsg', 'readlink', 'readv', 'writev'}
FD = {'open', 'open64', 'openat', 'creat', 'mkstemp', 'socket', 'accept', 'accept4', 'dup', 'dup2', 'fork', 'lseek', 'poll', 'select', 'epoll_wait'}
NULL = {'getcwd': 0, 'opendir': 0, 'mmap': -1, 'fopen': 0, 'fdopen': 0, 'popen': 0, 'realpath': 0}
# the failure of these has to make a difference to what the caller does
NOTICE = {'read', 'write', 'pread', 'pwrite', 'recv', 'recvfrom', 'recvmsg', 'send', 'sendto', 'sendmsg', 'readv', 'writev', 'open', 'mkstemp',
          'openat', 'creat', 'socket', 'accept', 'connect', 'bind', 'listen', 'pipe', 'socketpair', 'fork', 'fstat', 'stat', 'lstat', 'lseek',
          'ftruncate', 'getsockname', 'getpeername', 'getsockopt', 'setsockopt', 'utimes', 'chown', 'chdir', 'mkdir', 'opendir', 'fopen',
          'fdopen', 'rename', 'chmod', 'poll'}
# stream transfers and waits are restarted when a signal interrupts them
RESTART = {'read', 'write', 'recvfrom', 'recv', 'send', 'poll', 'readv', 'writev'}
STAT = {'fstat': 1, 'stat': 1, 'lstat': 1, 'getsockname': 1, 'getpeername': 1, 'getsockopt': 3, 'poll': None}
ALL = STATUS | COUNT | FD | set(NULL)
EIO, EINTR = 5, 4


def key(o, f):
    """identity of a memory cell that is not local"""
    g = g_of(o)
    if g: return g
    d = f.defn(o)
    if d is not None and d.op == 'gep' and d.x['f']: return tuple(d.x['f'][-1])
    return None


def markers(p, values=(-1, 0)):
    """fields and globals that some function compares with the error value, after loading them"""
    out = {v: set() for v in values}
    for f in p.funcs.values():
        if f.decl: continue
        for i in f.instrs():
            if i.op not in ('icmp', 'switch'): continue
            d = f.defn(strip(f, i.ops[0]))
            if d is None or d.op != 'load': continue
            k = key(d.ops[0], f)
            if k is None: continue
            cs = [o for o in i.ops[1:] if isinstance(o, int) or o == 'null' or isinstance(o, dict) and o.get('ce') == 'inttoptr']
            for c in cs:
                if c == 'null': c = 0
                if isinstance(c, dict): c = c['a'][0] if isinstance(c.get('a'), list) else c.get('a')
                if not isinstance(c, int): continue
                c = _sg(c, 32) if c >> 31 and c < 1 << 32 else _sg(c, 64)
                if c == -1 or i.op == 'icmp' and i.x in ('slt', 'sgt', 'sle', 'sge') and c in (0, -1): out[-1].add(k)
                if c == 0: out[0].add(k)
    return out


class Calls:
    """System calls, and the functions of the VM that answer the error result of one."""
    def __init__(self, p):
        self.p = p; self.wrap = {}       # function -> (error value, set of system calls behind it, success lo)
        self.sites = {}
        self.solve()

    def base(self, n): return self.p.funcs[n].base if n in self.p.funcs else n

    def kind(self, i):
        """(error value, success values, names) of call i, or None"""
        n = i.callee
        if n is None: return None
        b = self.base(n)
        if n in self.p.funcs and not self.p.funcs[n].decl:
            w = self.wrap.get(n)
            if not w: return None
            return w[0], [fault.Ok(i.id, 0)] if w[0] == -1 else [fault.Ok(i.id, 1)], w[1]
        if b in ('fcntl', 'ioctl'):
            return -1, [fault.Ok(i.id, 0)], {b}
        if b in STATUS: return -1, [0], {b}
        if b in COUNT: return -1, [0, fault.Ok(i.id, 1)], {b}
        if b in NULL: return NULL[b], [fault.Ok(i.id, 1)], {b}
        if b == 'fork': return -1, [fault.Ok(i.id, 1)], {b}       # the child is another process
        if b in FD: return -1, [fault.Ok(i.id, 0)], {b}
        return None

    def solve(self):
        p = self.p; ch = True; ret = {}
        fs = [f for f in p.funcs.values() if not f.decl]
        while ch:
            ch = False
            for f in fs:
                for i in f.calls():
                    k = self.kind(i)
                    if k is None: continue
                    s = (f.name, i.id); old = self.sites.get(s)
                    if old is not None and old[0] == k: continue
                    self.sites[s] = (k, i)
                    if f.name in self.wrap and self.wrap[f.name][1] >= k[2]: continue
                    if not (k[2] & (NOTICE | {'poll'})): continue
                    if f.ret == 'void' or f.base.startswith('VMpr_'): continue
                    fe = fault.Walk(p).run(f, i, k[0], True)
                    vals = {(_sg(e.val, 64) if isinstance(e.val, int) else e.val) for e in fe if e.kind == 'ret'}
                    if any(e.kind == 'ret' and e.taint and e.val == k[0] for e in fe) or k[0] == -1 and vals == {-1}:
                        e0, n0 = self.wrap.get(f.name, (k[0], set()))
                        if e0 == k[0]: self.wrap[f.name] = (e0, n0 | k[2]); ch = True


def initialised(f, call, o):
    """the buffer o (an alloca) is written on all paths before call, other than by system calls"""
    a = f.defn(strip(f, o)); idom = None
    if a is None or a.op != 'alloca': return False
    dom = set(); b = call.bb; idom = f.dominators()
    while True:
        dom.add(b)
        if idom.get(b, b) == b: break
        b = idom[b]
    for i in f.instrs():
        if i.bb not in dom or i.bb == call.bb and i.idx >= call.idx: continue
        if i.op == 'call' and (i.callee or '').startswith(('llvm.memset', 'llvm.memcpy', 'memset', 'memcpy')) and f.defn(strip(f, i.ops[0])) is a: return True
        if i.op == 'store' and f.defn(strip(f, i.ops[1])) is a and a.x[0][:1] == 'i': return True
    return False


def root(f, o):
    d = f.defn(o)
    while d is not None and d.op in ('gep', 'bitcast'):
        o = d.x['b'] if d.op == 'gep' else d.ops[0]; d = f.defn(o)
    return d


def outcome(e):
    v = e.val
    if e.kind == 'ret' and isinstance(v, int): v = _sg(v, 64)
    return (e.kind, 'err' if e.taint else v if isinstance(v, (int, str, type(None))) else 'ok')
