"""Class world of a set of Smalltalk source files: hierarchy, variables, methods."""
import os
from cfront import AnalysisBroken, REPO
import stsys
from stparse import ClassDef, Node


class Class:
    def __init__(self, name, ns):
        self.name = name; self.ns = ns           # name unqualified, ns dotted
        self.sup = None; self.supname = None
        self.ivars = []; self.civars = []; self.cvars = {}; self.imports = []; self.pragmas = []
        self.methods = {}; self.cmethods = {}    # selector -> Method
        self.defs = []                           # ClassDefs
        self.file = None; self.line = 0; self.subs = []

    @property
    def full(self): return self.name if self.ns == 'Smalltalk' else self.ns + '.' + self.name

    def supers(self):
        c = self; seen = set()
        while c is not None and c not in seen:
            seen.add(c); yield c; c = c.sup

    def all_ivars(self):
        out = []
        for c in reversed(list(self.supers())): out += c.ivars
        return out

    def all_civars(self):
        out = []
        for c in reversed(list(self.supers())): out += c.civars
        return out

    def lookup(self, sel, meta=False):
        for c in self.supers():
            m = (c.cmethods if meta else c.methods).get(sel)
            if m is not None: return m
        return None

    def all_subs(self):
        for s in self.subs:
            yield s; yield from s.all_subs()

    def shape(self):
        for c in self.supers():
            for s, a in c.pragmas:
                if s == 'shape:' and a:
                    v = a[0].value if a[0].k == 'sym' else None if a[0].k == 'var' else '?'
                    return c.sup.shape() if v == 'inherit' and c.sup else v
            if True:
                return None
        return None

    def __repr__(self): return self.full


class World:
    def __init__(self):
        self.classes = {}          # full dotted name (Smalltalk. stripped) -> Class
        self.namespaces = {'Smalltalk'}
        self.unresolved = []
        self.files_parsed = []

    @staticmethod
    def strip(n): return n[10:] if n.startswith('Smalltalk.') else n

    def find(self, name, ns='Smalltalk'):
        """Resolve a class name as seen from namespace ns."""
        name = self.strip(name)
        parts = ns.split('.') if ns != 'Smalltalk' else []
        for k in range(len(parts), -1, -1):
            q = '.'.join(parts[:k] + [name])
            if q in self.classes: return self.classes[q]
        return None

    def add_files(self, files, must=True):
        items = []
        for f in files:
            it = stsys.parse(f)
            if isinstance(it, Exception):
                if must: raise AnalysisBroken('cannot parse %s: %s' % (f, it))
                self.unresolved.append((f, str(it))); continue
            items.append((f, it)); self.files_parsed.append(f)
        self.add_items(items)

    def add_items(self, items):
        defs = []
        for f, it in items:
            for c in it:
                if isinstance(c, ClassDef):
                    self.namespaces.add(c.ns); defs.append(c)
        for c in defs:
            if c.kind == 'subclass':
                nm = self.strip(c.name); ns = c.ns
                if '.' in nm: ns, nm = nm.rsplit('.', 1)
                q = nm if ns == 'Smalltalk' else ns + '.' + nm
                k = self.classes.get(q)
                if k is None: k = self.classes[q] = Class(nm, ns)
                k.supname = c.sup; k.file = c.file; k.line = c.line; k.dns = c.ns
                k.ivars += [v for v in c.ivars if v not in k.ivars]
                k.civars += [v for v in c.civars if v not in k.civars]
                k.cvars.update(c.cvars); k.imports += list(c.imports); k.pragmas += c.pragmas; k.defs.append(c)
        for k in self.classes.values():
            if k.sup is None and k.supname not in (None, 'nil') and hasattr(k, 'dns'):
                s = self.find(k.supname, k.dns)
                if s is None: self.unresolved.append((k.file, 'superclass %s of %s' % (k.supname, k.full)))
                elif s is not k: k.sup = s; s.subs.append(k)
        for c in defs:
            if c.kind == 'subclass':
                nm = self.strip(c.name)
                k = self.find(nm, c.ns)
            else:
                k = self.find(c.name, c.ns)
            if k is None:
                self.unresolved.append((c.file, 'extended class %s' % c.name)); continue
            if c.kind != 'subclass':
                k.ivars += [v for v in c.ivars if v not in k.ivars]
                k.civars += [v for v in c.civars if v not in k.civars]
                for v in c.cvars: k.cvars.setdefault(v, c.cvars[v])
                k.imports += [i for i in c.imports if i not in k.imports]
                k.pragmas += c.pragmas; k.defs.append(c)
            for m in c.methods:
                m.owner = k; m.dns = c.ns
                (k.cmethods if m.meta else k.methods)[m.sel] = m


def kernel():
    w = World(); w.add_files(stsys.kernel_files())
    if len(w.classes) < 200: raise AnalysisBroken('only %d kernel classes' % len(w.classes))
    return w
