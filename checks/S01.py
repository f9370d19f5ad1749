#!/usr/bin/env python3
"""S01: equal objects have equal hashes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, stsys, stworld, strais
from stparse import walk, sends, Node

ALL = None                      # everything about the two objects is equal
# pairs of primitives (or of a primitive and a method) that agree by their definition in the virtual machine
CONTENT = {'do:', 'keysAndValuesDo:', 'associationsDo:', 'size', 'at:', 'basicAt:', 'basicSize', 'hashFor:', 'doWithIndex:', 'keysDo:', 'primAt:', 'primSize', 'reverseDo:', 'isEmpty', 'notEmpty'}
IDENT = {'VMpr_Object_identity'}
IDENTITY = {'identity', '.identityHash', '.asOop', '.basicHash'}
PAIRS = {('VMpr_ArrayedCollection_equal', 'VMpr_String_hash'), ('VMpr_LargeInteger_eq', 'VMpr_String_hash'), ('VMpr_Character_equal', 'VMpr_Object_hash')}
NUMBERS = 'exact conversion between number classes: = coerces to the more general class and every hash is the hash of the integer or of the nearest FloatD'


def prim(m):
    if m is None or m.primitive is None: return None
    p = m.primitive
    return p.name.split('.')[-1] if p.k == 'var' else p.value


class State:
    """What of its receiver a method reads, by name."""

    def __init__(self, c):
        self.c = c; self.iv = set(c.all_ivars())

    def accessor(self, sel):
        m = self.c.lookup(sel)
        if m is not None and m.primitive is None and len(m.body) == 1 and m.body[0].k == 'return' and m.body[0].value is not None \
           and m.body[0].value.k == 'var' and m.body[0].value.name in self.iv: return m.body[0].value.name
        return None

    def atom(self, e):
        """Name of the part of the receiver that e denotes, or None."""
        if e.k == 'var':
            return '*contents' if e.name == 'tally' and e.name in self.iv else e.name if e.name in self.iv else None
        if e.k == 'send' and e.rcv.k == 'var' and e.rcv.name in ('self', 'super'):
            if e.rcv.name == 'super' and e.sel in ('hash', '='): return 'super'
            if e.sel in CONTENT: return '*contents'
            if not e.args:
                a = self.accessor(e.sel) or '.' + e.sel
                return '*contents' if a == 'tally' else a
        return None


class Equal:
    """The parts that are equal on every path on which = answers true."""

    def __init__(self, c, m):
        self.s = State(c); self.paths = []; self.c = c
        self.arg = m.args[0]
        self.body(m.body, frozenset(), ())

    def join(self, a, b): return ALL if a is ALL or b is ALL else a | b

    def meet(self, a, b): return b if a is ALL else a if b is ALL else a & b

    def facts(self, e):
        """(parts known equal if e is true) or False when e is never true"""
        if e is None: return frozenset()
        if e.k == 'block': return self.facts(e.body[-1]) if len(e.body) == 1 else frozenset()
        if e.k == 'var': return False if e.name in ('false', 'nil') else frozenset()
        if e.k != 'send': return frozenset()
        if e.sel == 'and:' or e.sel == '&':
            a = self.facts(e.rcv); b = self.facts(e.args[0])
            return False if a is False or b is False else self.join(a, b)
        if e.sel in ('or:', '|'):
            a = self.facts(e.rcv); b = self.facts(e.args[0])
            return b if a is False else a if b is False else self.meet(a, b)
        if e.sel in ('=', '==', 'sameAs:'):
            if e.rcv.k == 'var' and e.rcv.name == 'self': return ALL if e.args[0].k == 'var' and e.args[0].name == self.arg and e.sel == '==' else frozenset()
            if e.rcv.k == 'var' and e.rcv.name == 'super': return frozenset({'super'})
            if e.rcv.k == 'send' and e.rcv.sel == 'hash' and e.rcv.rcv.k == 'var' and e.rcv.rcv.name == 'self': return ALL   # the hashes themselves
            a = self.s.atom(e.rcv) or self.s.atom(e.args[0])
            # strings of different encodings are hashed by their Unicode contents
            if a == '.asUnicodeString': return frozenset({a, '*contents'})
            if a: return frozenset({a})
            # contents compared element by element in a loop are collected there
            return frozenset()
        if e.sel in strais.ARMS and all(x.k == 'block' for x in e.args):
            l = [self.facts(x.body[-1]) if x.body else frozenset() for x in e.args]
            l = [x for x in l if x is not False]
            if not l: return False
            o = l[0]
            for x in l[1:]: o = self.meet(o, x)
            return o
        return frozenset()

    def cond(self, e):
        """textual form of a condition on the receiver alone"""
        if e.k == 'send' and not e.args:
            a = self.s.atom(e.rcv) if not (e.rcv.k == 'var' and e.rcv.name == 'self') else 'self'
            if a: return (a, e.sel)
        return None

    def body(self, stmts, known, conds):
        """Returns the facts at the end of stmts (False: not reached)."""
        for s in stmts:
            if s.k == 'return':
                self.ret(s.value, known, conds); return False
            if s.k == 'send' and s.sel in ('ifTrue:', 'ifFalse:') and s.args[0].k == 'block':
                f = self.facts(s.rcv); t = self.cond(s.rcv)
                pos = s.sel == 'ifTrue:'
                inner = self.join(known, f) if pos and f is not False else known
                c1 = conds + ((t, pos),) if t else conds
                end = self.body(s.args[0].body, inner, c1)
                if end is False:
                    if not pos and f is not False: known = self.join(known, f)
                    if t: conds = conds + ((t, not pos),)
                continue
            if s.k == 'send' and s.sel in strais.ARMS and all(x.k == 'block' for x in s.args):
                f = self.facts(s.rcv); t = self.cond(s.rcv); ends = []
                for x, pos in zip(s.args, (s.sel.startswith('ifTrue') or s.sel.startswith('ifNil'), not (s.sel.startswith('ifTrue') or s.sel.startswith('ifNil')))):
                    ends.append(self.body(x.body, self.join(known, f) if pos and f is not False and s.sel.startswith('if') and 'Nil' not in s.sel else known, conds + ((t, pos),) if t else conds))
                ends = [x for x in ends if x is not False]
                if not ends: return False
                known = ends[0]
                for x in ends[1:]: known = self.meet(known, x)
                continue
            # a loop that leaves with false for the first difference
            if s.k == 'send' and (s.sel in CONTENT or s.sel in ('to:do:', 'from:to:do:', 'reverse:do:', 'with:do:')) or \
               s.k == 'send' and s.sel.endswith('do:'):
                rets = [x for x in walk(s) if x.k == 'return']
                if rets and all(x.value is not None and x.value.k == 'var' and x.value.name == 'false' for x in rets):
                    known = self.join(known, frozenset({'*contents'}))
                else:
                    for x in rets: self.ret(x.value, known, conds)
                continue
            for x in walk(s):
                if x.k == 'return': self.ret(x.value, known, conds)
        return known

    def ret(self, e, known, conds):
        if e is not None and e.k == 'send' and e.sel in strais.ARMS and all(x.k == 'block' for x in e.args):
            t = self.cond(e.rcv); f = self.facts(e.rcv)
            pos0 = e.sel.startswith('ifTrue')
            for x, pos in zip(e.args, (pos0, not pos0)):
                self.ret(x.body[-1] if x.body else None, self.join(known, f) if pos and f is not False else known, conds + ((t, pos),) if t else conds)
            return
        f = self.facts(e)
        if f is False: return
        self.paths.append((self.join(known, f), conds, e))


class Hash:
    """The parts that hash reads, per path: [(parts, conditions)]."""

    def __init__(self, c, m):
        self.s = State(c); self.eq = Equal.__new__(Equal); self.eq.s = self.s
        self.paths = []
        self.run(m.body, frozenset(), ())

    def parts(self, n):
        out = set()

        def go(x):
            if isinstance(x, (list, tuple)):
                for y in x: go(y)
                return
            if not isinstance(x, Node): return
            a = self.s.atom(x)
            if a is not None:
                if a not in ('.class',): out.add(a)
                if x.k == 'send': go(x.args)
                return
            for v in x.a.values(): go(v)
        go(n)
        # how a part enters the hash must not depend on its identity
        return frozenset(out)

    def run(self, stmts, known, conds):
        for s in stmts:
            if s.k == 'return':
                e = s.value
                if e.k == 'send' and e.sel in strais.ARMS and all(x.k == 'block' for x in e.args):
                    t = self.eq.cond(e.rcv); pos0 = e.sel.startswith('ifTrue')
                    for x, pos in zip(e.args, (pos0, not pos0)):
                        self.paths.append((known | self.parts(x.body) | (frozenset() if t else self.parts(e.rcv)), conds + ((t, pos),) if t else conds))
                    return
                self.paths.append((known | self.parts(s.value), conds)); return
            if s.k == 'send' and s.sel in ('ifTrue:', 'ifFalse:') and s.args[0].k == 'block' and s.args[0].body and s.args[0].body[-1].k == 'return':
                t = self.eq.cond(s.rcv); pos = s.sel == 'ifTrue:'
                k0 = known if t else known | self.parts(s.rcv)
                self.run(s.args[0].body, k0, conds + ((t, pos),) if t else conds)
                known = k0; conds = conds + ((t, not pos),) if t else conds
                continue
            if s.k == 'send' and not s.args and s.rcv.k == 'var' and s.rcv.name == 'self': continue     # value not used
            known = known | self.parts(s)
        self.paths.append((known, conds))


def compatible(a, b):
    d = dict(a)
    return all(d.get(t, p) == p for t, p in b)


def equalities(w, c, depth=0):
    """paths of the = that instances of c use: [(facts or ALL, conds)] with 'super' resolved"""
    m = c.lookup('=')
    if m is None: return None, [(ALL, ())]
    if prim(m) in IDENT: return m, [(ALL, ())]
    if prim(m): return m, [('prim', ())]
    o = m.owner
    e = Equal(o, m); out = []
    for f, k, x in e.paths:
        if f is not ALL and 'super' in f and o.sup is not None and depth < 6:
            sm, sp = equalities(w, o.sup, depth + 1)
            r = ALL
            for g, _ in sp:
                if g == 'prim': g = frozenset({'prim:' + str(prim(sm))})
                r = g if r is ALL else r if g is ALL else r & g
            f = ALL if r is ALL else f | r
        if f is not ALL and set(o.ivars) and set(o.ivars) <= f and ('super' in f or not any(z.ivars for z in list(o.supers())[1:])) and o.shape() is None: f = f | {'*all'}
        out.append((f, k))
    return m, out


def check_class(r, c, where):
    em, eq = equalities(None, c)
    hm = c.lookup('hash')
    name = c.full
    r.count('classes')
    line = '%s:%d' % (stsys.rel((hm if hm.owner is c else em).file), (hm if hm.owner is c else em).line)
    if eq == [(ALL, ())] or all(f is ALL for f, k in eq):
        r.count('identity'); r.ob(); return
    if em.owner is not None and strais_only(em): r.ob(); r.count('abstract'); return
    num = any(k.name == 'Number' for k in c.supers())
    if num:
        # number classes: the hash must be one that all numbers share
        r.count('numbers')
        ok = hm is not None and any(k.name == 'Number' for k in hm.owner.supers())
        r.ob(ok)
        if not ok: r.violation('hash:%s' % name, line, '%s is compared by value, but is hashed by identity' % name)
        return
    if prim(em) and prim(hm):
        ok = (prim(em), prim(hm)) in PAIRS
        r.ob(ok); r.count('primitive_pairs')
        if not ok: r.violation('prim:%s' % name, line, '%s compares with %s, but hashes with %s' % (name, prim(em), prim(hm)))
        return
    if prim(hm) == 'VMpr_Object_hash':
        r.ob(False)
        r.violation('hash:%s' % name, line, '%s defines = (%s) but is hashed by identity' % (name, em.owner.full)); return
    if prim(hm) == 'VMpr_String_hash' or prim(em):
        # contents against contents
        ok = all(f is ALL or '*contents' in f for f, k in eq if f != 'prim') or prim(em) in ('VMpr_ArrayedCollection_equal',)
        r.ob(ok); r.count('contents_pairs')
        if not ok: r.violation('hash:%s' % name, line, '%s hashes its contents, but = does not compare them on every path' % name)
        return
    h = Hash(hm.owner, hm)
    hs = []
    for parts, hc in h.paths:
        if 'super' in parts and hm.owner.sup is not None:
            q = hm.owner.sup.lookup('hash')
            parts = parts - {'super'}
            if prim(q) == 'VMpr_Object_hash': parts |= {'identity'}
            elif prim(q): parts |= {'*contents'}
            else:
                for p2, c2 in Hash(q.owner, q).paths: parts |= p2
        hs.append((parts, hc))
    for f, ek in eq:
        for parts, hk in hs:
            if not compatible(ek, hk): continue
            r.count('path_pairs')
            miss = set() if f is ALL else parts & IDENTITY if '*all' in f else {x for x in parts if x not in f and x != 'super'}
            r.ob(not miss)
            if miss:
                r.violation('hash:%s:%s' % (name, ','.join(sorted(miss))), line, '%s: hash depends on %s, which two objects that = calls equal need not share' %
                            (name, ', '.join(sorted(x.replace('*', 'the ').replace('.', 'self ') for x in miss))))


def strais_only(m):
    return len(m.body) == 1 and any(s == 'subclassResponsibility' for _, s, _, _ in sends(m.body))


def check(r):
    w = stworld.kernel()
    for c in sorted(w.classes.values(), key=lambda c: c.full):
        if '=' in c.methods or 'hash' in c.methods: check_class(r, c, None)
    r.require('classes', 45)
    r.rules = ['on every pair of compatible paths of = and hash, the parts of the receiver that hash reads are among those that = compares']


if __name__ == '__main__':
    vp.main('S01', check, level='proof', explanation='for every kernel class that defines = or hash, the parts of the receiver read on each path of hash are compared with those that are equal on each compatible path of =',
            trusted=['the Smalltalk parser and class model in /verif/lib', NUMBERS, 'the primitive pairs in PAIRS agree by their definition in the virtual machine', 'equal Unicode contents mean equal contents for the purpose of hashing'])
