#!/usr/bin/env python3
"""S02: storing and adding messages answer the object that was passed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, stsys, stworld, strais
from stparse import walk, ClassDef

# selector -> position of the argument to be answered
SEL = {'at:put:': 1, 'basicAt:put:': 1, 'instVarAt:put:': 1, 'instVarNamed:put:': 1, 'add:': 0, 'addAll:': 0, 'addFirst:': 0, 'addLast:': 0,
       'addAllFirst:': 0, 'addAllLast:': 0, 'add:withOccurrences:': 0, 'add:beforeIndex:': 0, 'add:afterIndex:': 0,
       'addAll:beforeIndex:': 0, 'addAll:afterIndex:': 0, 'addAll:withOccurrences:': 0}


class Answers:
    """Does a method answer its argument on every path that returns?"""

    def __init__(self, world, raising):
        self.w = world; self.raising = raising; self.memo = {}

    def method(self, c, m, k):
        key = (m, k)
        if key not in self.memo:
            self.memo[key] = []          # recursion: assume it does
            self.memo[key] = list(self.bad(c, m, k))
        return self.memo[key]

    def bad(self, c, m, k):
        arg = m.args[k]
        same = {arg}
        # a temporary that is only ever assigned the argument
        for s in walk(m.body):
            if s.k == 'assign':
                n = s.a.get('name') or s.a.get('var')
                if hasattr(n, 'name'): n = n.name
                if n == arg: return [s]      # the argument is reused
        out = []

        def val(v):
            if v is None: return False
            if v.k == 'var': return v.name in same
            if v.k == 'assign': return val(v.value)
            if v.k == 'cascade': return False
            if v.k != 'send': return False
            if v.sel in self.raising: return True
            if v.sel in strais.ARMS: return all(a.k == 'block' and blk(a.body) for a in v.args)
            if v.sel in ('ensure:', 'ifCurtailed:', 'valueWithoutPreemption', 'value', 'valueWithoutInterrupts') and v.rcv.k == 'block': return blk(v.rcv.body)
            if v.sel in ('critical:', 'valueWithoutPreemption:') and v.args and v.args[-1].k == 'block': return blk(v.args[-1].body)
            pos = [i for i, a in enumerate(v.args) if val(a)]
            if not pos: return False
            if v.rcv.k == 'var' and v.rcv.name in ('self', 'super') and c is not None:
                t = c if v.rcv.name == 'self' else c.sup
                q = t.lookup(v.sel, m.meta) if t else None
                if q is not None and v.sel not in SEL and q.primitive is None:
                    return any(not self.method(q.owner, q, i) for i in pos)
            return v.sel in SEL and SEL[v.sel] in pos

        def blk(b):
            return bool(b) and val(b[-1].value if b[-1].k == 'return' else b[-1])
        for s in m.body:
            for x in walk(s):
                if x.k == 'return' and not val(x.value): out.append(x)
        if strais.falls(m.body, self.raising): out.append(None)
        return out


def check(r):
    w = stworld.kernel()
    ms = list(stsys.methods_of(stsys.kernel_files())) + list(stsys.methods_of(stsys.package_files(), False))
    raising = strais.raising_selectors(ms) | strais.DIAGNOSE | {'shouldNotImplement'}
    an = Answers(w, raising)
    for c in sorted(w.classes.values(), key=lambda c: c.full):
        for m in sorted(c.methods.values(), key=lambda m: m.sel):
            if m.sel not in SEL: continue
            r.count('methods')
            bad = an.method(c, m, SEL[m.sel])
            r.ob(not bad); r.count('return_points', 1 + sum(x.k == 'return' for s in m.body for x in walk(s)))
            for x in bad:
                what = 'can end without an explicit answer and answers the receiver' if x is None else \
                       'answers something other than its argument %s' % m.args[SEL[m.sel]] if x.k == 'return' else 'assigns to its argument'
                r.violation('answer:%s>>%s' % (c.full, m.sel), '%s:%d' % (stsys.rel(m.file), x.line if x is not None else m.line), '%s>>%s %s' % (c.full, m.sel, what))
    r.require('methods', 50)
    r.rules = ['every return of a storing or adding method answers the argument, delegates it to another storing message in the same position, or raises']


if __name__ == '__main__':
    vp.main('S02', check, level='proof', explanation='value flow from the stored argument to every return of the storing messages of all kernel classes, through self and super sends',
            trusted='the Smalltalk parser and class model in /verif/lib; storing messages to other objects are assumed to keep the same rule')
