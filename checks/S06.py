#!/usr/bin/env python3
"""S06: a copied collection does not share its mutable storage."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, stsys, stworld
from stparse import walk

# messages that change the object they are sent to
MUT = {'at:put:', 'basicAt:put:', 'add:', 'addFirst:', 'addLast:', 'addFirst', 'addLast', 'addAll:', 'addAllFirst:', 'addAllLast:', 'add:afterIndex:', 'addAll:afterIndex:',
       'add:beforeIndex:', 'addAll:beforeIndex:', 'addAll:withOccurrences:', 'add:withOccurrences:', 'remove:', 'remove:ifAbsent:', 'removeFirst', 'removeLast', 'removeFirst:', 'removeLast:',
       'removeKey:', 'removeKey:ifAbsent:', 'removeAll:', 'removeIndex:', 'removeAtIndex:', 'atAllPut:', 'at:ifAbsentPut:', 'replaceFrom:to:with:startingAt:', 'replaceFrom:to:with:', 'swap:with:'}
ROOTS = {'Object'}
# a mapped collection is a view: its comment says that changes are made in the domain; a block shares the literals of its method
VIEWS = {('MappedCollection', 'domain'), ('CompiledCode', 'literals'), ('CompiledBlock', 'literals')}


def owner_of(c, v):
    for k in c.supers():
        if v in k.ivars: return k
    return None


def storage(c):
    """Instance variables whose object a method of c changes: {name: (method, send)}."""
    iv = set(c.all_ivars()); out = {}
    seen = set()
    for k in c.supers():
        for m in k.methods.values():
            if m.sel in seen: continue           # overridden
            seen.add(m.sel)
            for s in m.body:
                al = {}
                for x in walk(s):
                    if x.k == 'cascade':
                        r0 = x.a.get('rcv')
                    if x.k == 'send' and x.sel in MUT and x.rcv.k == 'var' and x.rcv.name in iv: out.setdefault(x.rcv.name, (m, x))
    return out


def name_of(n):
    v = n.a.get('name') or n.a.get('var')
    return v.name if hasattr(v, 'name') else v


class Copy:
    def __init__(self, c): self.c = c

    def assigned(self, m, fresh=frozenset(), depth=0):
        """Variables that m gives a fresh value, through super and self sends; fresh: temporaries and arguments known to be new objects."""
        out = set()
        if depth > 6 or m is None or m.primitive is not None: return out
        fresh = set(fresh); iv = set(self.c.all_ivars())

        def is_new(v):
            if v.k == 'var': return v.name in fresh
            if v.k == 'assign': return is_new(v.value)
            return not (v.k == 'send' and v.sel in ('yourself', 'value') and not v.args)
        for _ in range(2):
            for s in m.body:
                for x in walk(s):
                    if x.k == 'assign' and is_new(x.value):
                        n = name_of(x)
                        (out if n in iv else fresh).add(n)
        for s in m.body:
            for x in walk(s):
                if x.k == 'send' and x.rcv.k == 'var' and x.rcv.name in ('self', 'super'):
                    t = self.c if x.rcv.name == 'self' else m.owner.sup
                    q = t.lookup(x.sel) if t else None
                    if q is not None and q is not m:
                        out |= self.assigned(q, frozenset(p for p, a in zip(q.args, x.args or ()) if is_new(a)), depth + 1)
        return out

    def passed(self, m):
        """Variables that m hands, as they are, to a message that stores them into the copy."""
        out = {}; iv = set(self.c.all_ivars())
        for s in m.body:
            for x in walk(s):
                if x.k not in ('send', 'cascade'): continue
                msgs = [(x.sel, x.args)] if x.k == 'send' else [(q[0], q[1]) for q in x.a.get('msgs', ()) if isinstance(q, (list, tuple)) and len(q) > 1]
                for sel, args in msgs:
                    for i, a in enumerate(args or ()):
                        if a.k != 'var' or a.name not in iv: continue
                        q = self.c.lookup(sel)
                        if q is None or i >= len(q.args): continue
                        p = q.args[i]
                        if any(z.k == 'assign' and z.value.k == 'var' and z.value.name == p and name_of(z) in iv for b in q.body for z in walk(b)): out[a.name] = x
        return out

    def shared(self):
        """(variable, message) pairs whose object the copy made by that message shares with the original."""
        st = storage(self.c)
        if not st: return st, []
        bad = []; paths = []
        m = self.c.lookup('copy')
        paths.append(('copy', m if m is not None and m.owner.full not in ROOTS else None))
        cp = self.c.lookup('shallowCopy')
        for msg, m in paths:
            if m is None:
                m = cp; post = self.assigned(self.c.lookup('postCopy'))
            else: post = set()
            direct = m is None or m.primitive is not None
            ret_self = m is not None and len(m.body) == 1 and m.body[0].k == 'return' and m.body[0].value.k == 'var' and m.body[0].value.name == 'self'
            if ret_self: continue                # unique objects are not copied at all
            pas = {} if direct else self.passed(m)
            for v in sorted(st):
                if (self.c.full, v) in VIEWS: continue
                if v in post: continue
                if direct or v in pas: bad.append((v, msg))
        return st, bad


def check(r):
    w = stworld.kernel(); coll = w.find('Collection')
    for c in sorted(coll.all_subs(), key=lambda c: c.full):
        r.count('classes')
        st, bad = Copy(c).shared()
        for v in st: r.count('storage_variables')
        bv = {v for v, _ in bad}
        for v in st: r.ob(v not in bv)
        for v, msg in bad:
            m, x = st[v]; o = owner_of(c, v)
            if o is not c and o is not None and c.sup is not None and any(z == v for z, _ in Copy(c.sup).shared()[1]): continue       # reported for the superclass
            r.violation('copy:%s:%s' % (c.full, v), '%s:%d' % (stsys.rel(c.file), c.line), 'a copy of a %s shares %s with the original, and %s>>%s changes it' % (c.full, v, m.owner.full, m.sel))
    for n, k in (('classes', 40), ('storage_variables', 10)): r.require(n, k)
    r.rules = ['an instance variable whose object a method of the class changes gets a fresh object in postCopy, or is not handed on by a shallowCopy that builds the copy itself']


if __name__ == '__main__':
    vp.main('S06', check, level='proof', explanation='for every kernel collection class, the instance variables whose objects its methods (own and inherited) change, against the copying messages it answers to',
            trusted=['the Smalltalk parser and class model in /verif/lib', 'shallowCopy, copy, copyEmpty and collect: of another object answer fresh storage', 'VIEWS are documented to share'])
