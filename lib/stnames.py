"""Name resolution over parsed Smalltalk methods."""
import re
import stworld
from stparse import Node, walk, ClassDef
import stsys

PSEUDO = {'self', 'super', 'nil', 'true', 'false', 'thisContext'}


class Resolver:
    """resolve(method) -> list of (Node var|assign-target, binding)
    binding: (kind, what): 'pseudo' name, 'arg'/'temp' decl-id, 'ivar' name,
    'cvar' (Class, name), 'class' Class, 'ns' name, 'global' name, None."""

    def __init__(self, world, globals_=()):
        self.w = world; self.globals = set(globals_)
        self.nsvars = {}          # namespace -> set of variables put there by evaluated code
        # variables that evaluated code defines: Smalltalk at: #X put: / Smalltalk.X := / addSubspace:
        for f in world.files_parsed:
            for it in stsys.parse(f):
                bodies = []
                if isinstance(it, ClassDef): bodies = [m.body for m in it.methods]
                elif it.k == 'eval': bodies = [it.body]
                for b in bodies:
                    for x in walk(b):
                        if x.k == 'send' and x.sel in ('at:put:', 'addSubspace:', 'define:', 'at:ifAbsentPut:') and x.args and x.args[0].k == 'sym':
                            r = x.rcv
                            if r.k == 'var' and r.name[0].isupper():
                                nm = world.strip(r.name)
                                if nm == 'Smalltalk': self.globals.add(x.args[0].value)
                                elif nm in world.namespaces: self.nsvars.setdefault(nm, set()).add(x.args[0].value)
                                if x.sel == 'addSubspace:':
                                    q = x.args[0].value if nm == 'Smalltalk' else nm + '.' + x.args[0].value
                                    world.namespaces.add(q)
                if not isinstance(it, ClassDef) and it.k == 'eval':
                    for x in walk(it.body):
                        if x.k == 'assign':
                            for n in x.names if isinstance(x.a.get('names'), list) else [x.a.get('name')]:
                                if isinstance(n, str) and n.startswith('Smalltalk.') and n.count('.') == 1:
                                    self.globals.add(n[10:])

    # -- one dotted or plain upper-level name seen from a class / namespace
    def outer(self, name, cls, ns):
        w = self.w
        parts = name.split('.')
        b = self.first(parts[0], cls, ns)
        for p in parts[1:]:
            if b is None: return None
            if b[0] == 'ns':
                b = self.in_ns(p, b[1])
                # a namespace also answers the variables of its superspaces
                q = b
                n2 = None
            elif b[0] == 'class':
                b = self.in_class(p, b[1])
            else:
                return ('global', name)        # value of unknown kind
        return b

    def in_ns(self, n, ns):
        w = self.w
        while True:
            q = n if ns == 'Smalltalk' else ns + '.' + n
            if q in w.classes: return ('class', w.classes[q])
            if q in w.namespaces: return ('ns', q)
            if n in self.nsvars.get(ns, ()): return ('global', q)
            if ns == 'Smalltalk':
                if n == 'Smalltalk': return ('ns', 'Smalltalk')
                if n in self.globals: return ('global', n)
                return None
            ns = ns.rsplit('.', 1)[0] if '.' in ns else 'Smalltalk'

    def in_class(self, n, c):
        for k in c.supers():
            if n in k.cvars: return ('cvar', k, n)
            for im in k.imports:
                b = self.pool(im, k)
                if b is None: continue
                if b[0] == 'ns':
                    x = self.in_ns_only(n, b[1])
                    if x: return x
                elif b[0] == 'class':
                    if n in b[1].cvars: return ('cvar', b[1], n)
                elif b[0] == 'global' or b[0] == 'cvar':
                    if n[0].isupper(): self.poolused = True
        return None

    def in_ns_only(self, n, ns):
        q = n if ns == 'Smalltalk' else ns + '.' + n
        if q in self.w.classes: return ('class', self.w.classes[q])
        if q in self.w.namespaces: return ('ns', q)
        if n in self.nsvars.get(ns, ()): return ('global', q)
        return None

    def pool(self, im, k):
        ns = getattr(k, 'dns', k.ns)
        b = None
        parts = im.split('.')
        b = self.in_ns(parts[0], ns)
        for p in parts[1:]:
            if b is None: return None
            if b[0] == 'ns': b = self.in_ns(p, b[1])
            elif b[0] == 'class': b = ('cvar', b[1], p) if p in b[1].cvars else None
        return b

    def first(self, n, cls, ns):
        if cls is not None:
            # environment of the class, then of its superclasses
            b = self.in_class(n, cls)
            if b: return b
        b = self.in_ns(n, ns)
        if b: return b
        if cls is not None:
            for k in cls.supers():
                b = self.in_ns(n, k.ns)
                if b: return b
        return None

    def method(self, m, cls, ns=None):
        """Yield (node, name, binding, isassign)."""
        ns = ns or getattr(m, 'ns', None) or cls.ns
        ivars = (cls.all_civars() + META_IVARS(self.w, cls)) if m.meta else cls.all_ivars()
        scope = [dict([(a, ('arg', (m, a))) for a in m.args] + [(t, ('temp', (m, t))) for t in m.temps])]
        yield from self.body(m.body, scope, set(ivars), cls, ns)

    def body(self, n, scope, ivars, cls, ns):
        if isinstance(n, (list, tuple)):
            for x in n:
                if isinstance(x, (Node, list, tuple)): yield from self.body(x, scope, ivars, cls, ns)
            return
        if n.k == 'block':
            d = {a: ('arg', (id(n), a)) for a in n.args}
            d.update({t: ('temp', (id(n), t)) for t in n.temps})
            yield from self.body(n.body, scope + [d], ivars, cls, ns); return
        if n.k == 'cconst':
            d = {t: ('temp', (id(n), t)) for t in n.temps}
            yield from self.body(n.body, scope + [d], ivars, cls, ns); return
        if n.k == 'var':
            yield n, n.name, self.name(n.name, scope, ivars, cls, ns), False; return
        if n.k == 'binding':
            yield n, n.name, self.name(n.name, scope, ivars, cls, ns), False; return
        if n.k == 'assign':
            nm = n.a.get('name') or n.a.get('var')
            if isinstance(nm, Node): nm = nm.name
            yield n, nm, self.name(nm, scope, ivars, cls, ns), True
            yield from self.body(n.value, scope, ivars, cls, ns); return
        for v in n.a.values():
            if isinstance(v, (Node, list, tuple)): yield from self.body(v, scope, ivars, cls, ns)

    def name(self, nm, scope, ivars, cls, ns):
        if nm in PSEUDO: return ('pseudo', nm)
        for d in reversed(scope):
            if nm in d: return d[nm]
        if nm in ivars: return ('ivar', nm)
        return self.outer(nm, cls, ns)


def boot_globals():
    """Variables of Smalltalk that the bootstrap defines: the words that occur
    as strings of their own in dict.c."""
    import os
    from cfront import REPO
    t = open(os.path.join(REPO, 'libgst', 'dict.c'), encoding='latin-1').read()
    return {m for m in re.findall(r'"([A-Za-z]\w*)"', t)}


def META_IVARS(w, cls):
    c = w.find('Class')
    return c.all_ivars() if c else []
