#!/usr/bin/env python3
"""S04: names and selectors used by the class library exist."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, stworld, stnames, stsys
from stparse import walk, sends, ClassDef
from cfront import REPO


def litclass(n):
    k = n.k
    if k == 'str': return 'String'
    if k == 'sym': return 'Symbol'
    if k == 'char': return 'Character'
    if k in ('brace', 'litarray'): return 'Array'
    if k == 'bytes': return 'ByteArray'
    if k == 'block': return 'BlockClosure'
    if k == 'num':
        if isinstance(n.value, int): return 'SmallInteger' if abs(n.value) < 2 ** 30 else 'Integer'
        return 'Float'
    return None


def check(r):
    w = stworld.kernel()
    for f, what in w.unresolved:
        r.violation('class:%s:%s' % (stsys.rel(f), what), stsys.rel(f), 'names %s, which does not exist' % what)
    rs = stnames.Resolver(w, stnames.boot_globals())
    impl = set()
    for c in w.classes.values(): impl |= set(c.methods) | set(c.cmethods)
    kimpl = set(impl)
    # packages implement hooks that the base system calls
    for c, m in stsys.methods_of(stsys.package_files(), False): impl.add(m.sel)
    metaroot = w.find('Class')
    simple = {}
    for c in w.classes.values(): simple.setdefault(c.name, []).append(c)
    nsroots = [w.find('BindingDictionary'), w.find('Namespace')]

    def um(c, sel): return c.lookup(sel, True) or metaroot.lookup(sel)
    methods = []
    for c in w.classes.values():
        for m in list(c.methods.values()) + list(c.cmethods.values()): methods.append((c, m))
    for c, m in methods:
        r.count('methods')
        res = {}; where0 = stsys.rel(m.file)
        mname = '%s%s>>%s' % (c.full, ' class' if m.meta else '', m.sel)
        for nd, nm, b, asg in rs.method(m, c, m.dns):
            r.count('variable_uses')
            if b is None and len(simple.get(nm, ())) >= 1:
                b = ('class', simple[nm][0])          # undeclared until that class is loaded
            res[id(nd)] = b
            ok = b is not None
            if not ok:
                r.violation('name:%s:%s' % (mname, nm), '%s:%d' % (where0, nd.line), '%s uses the variable %s, which is not defined anywhere' % (mname, nm))
            elif asg and b[0] in ('arg', 'pseudo', 'class', 'ns'):
                ok = False
                r.violation('assign:%s:%s' % (mname, nm), '%s:%d' % (where0, nd.line), '%s assigns to %s, which is not a variable' % (mname, nm))
            r.ob(ok)
        for rcv, sel, args, line in sends(m.body):
            r.count('message_sends'); ok = True; what = None
            where = '%s:%d' % (where0, line)
            b = res.get(id(rcv)) if rcv.k == 'var' else None
            if rcv.k == 'var' and rcv.name == 'self':
                r.count('self_sends')
                ok = (um(c, sel) or any(sel in s.cmethods for s in c.all_subs())) if m.meta else \
                     (c.lookup(sel) or any(sel in s.methods for s in c.all_subs()))
                if not ok and sel not in kimpl and sel in impl: ok = True       # hook in a package
                what = 'itself, but neither %s nor a subclass understands it' % c.full
            elif rcv.k == 'var' and rcv.name == 'super':
                r.count('super_sends')
                s = c.sup
                ok = ((s and s.lookup(sel, True)) or metaroot.lookup(sel)) if m.meta else (s and s.lookup(sel))
                what = 'its superclass, which does not understand it'
            elif b and b[0] == 'class':
                r.count('class_sends')
                ok = um(b[1], sel) or (sel not in kimpl and sel in impl)
                what = 'the class %s, which does not understand it' % b[1].full
            elif b and b[0] == 'ns':
                r.count('namespace_sends')
                n = sel[:-1] if sel.endswith(':') and sel.count(':') == 1 else sel
                ok = sel in impl or rs.in_ns(n, b[1])
                what = 'the namespace %s, which neither defines it nor understands it' % b[1]
            elif sel not in impl:
                ok = False; what = 'an object, but no class implements it'
            else:
                l = {'nil': 'UndefinedObject', 'true': 'True', 'false': 'False'}.get(rcv.name) if rcv.k == 'var' else litclass(rcv)
                if l:
                    r.count('literal_sends')
                    k = w.find(l)
                    ok = k is None or k.lookup(sel) or any(sel in s.methods for s in k.all_subs() if l in ('Integer', 'Float'))
                    what = 'a literal %s, which does not understand it' % l
            if not ok:
                r.violation('send:%s:%s' % (mname, sel), where, '%s sends #%s to %s' % (mname, sel, what))
            r.ob(bool(ok))
    r.require('methods', 4500); r.require('message_sends', 15000); r.require('variable_uses', 18000)
    r.rules = ['every variable a method names is an argument, a temporary, an instance, class-side, class or pool variable of its class, or a binding of a namespace that encloses the class',
               'only variables are assigned to',
               'a message to self is implemented by the class, its superclasses or a subclass; to super by a superclass; to a class or literal by exactly that class',
               'a message to any other receiver is implemented by some class']


vp.main('S04', check, explanation='All methods of kernel/*.st, names resolved the way the compiler resolves them, selectors against the parsed class hierarchy (hooks may be implemented in packages/).',
        trusted=['the Smalltalk parser in lib/stparse.py', 'single-word string literals of dict.c as the names of bootstrap globals'])
