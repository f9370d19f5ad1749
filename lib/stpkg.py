"""Package descriptions (package.xml, packages.xml) and the class worlds they load."""
import copy, glob, os, re
import xml.etree.ElementTree as ET
from cfront import REPO, AnalysisBroken
import stsys, stworld
from stparse import ClassDef, Node


class Package:
    def __init__(self, e, d, src):
        t = lambda n: [x.text.strip() for x in e.findall(n) if x.text and x.text.strip()]
        self.dir = d; self.src = src
        self.name = (t('name') or ['?'])[0]; self.names = t('name')
        self.ns = (t('namespace') or ['Smalltalk'])[0]
        if self.ns.startswith('Smalltalk.'): self.ns = self.ns[10:]
        self.prereq = t('prereq'); self.provides = t('provides')
        self.filein = t('filein'); self.file = t('file'); self.built = t('built-file')
        self.modules = t('module'); self.libraries = t('library'); self.callouts = t('callout')
        self.start = t('start'); self.stop = t('stop')
        self.subdir = (t('directory') or [None])[0]
        self.sunit = ' '.join(t('sunit')).split()
        self.tests = [Package(x, d, src) for x in e.findall('test')]
        for x in self.tests: x.name = self.name + ' test'; x.ns = self.ns if x.ns == 'Smalltalk' else x.ns
        self.disabled = e.tag == 'disabled-package'
        self.tags = [x.tag for x in e.iter()]

    def base(self): return os.path.join(self.dir, self.subdir) if self.subdir else self.dir


def load():
    """(packages by name, problems)"""
    pk = {}; bad = []; n = 0
    xs = sorted(glob.glob(os.path.join(REPO, 'packages', '**', 'package.xml'), recursive=True))
    xs += [x for x in sorted(glob.glob(os.path.join(REPO, 'packages', '**', 'package.xml.in'), recursive=True)) if x[:-3] not in xs]
    xs.append(os.path.join(REPO, 'packages.xml'))
    for x in xs:
        rel = stsys.rel(x)
        try: root = ET.parse(x).getroot()
        except (ET.ParseError, OSError) as e:
            bad.append(('xml:' + rel, rel, 'is not well-formed XML: %s' % e)); continue
        for e in [root] if root.tag == 'package' else root:
            if e.tag not in ('package', 'disabled-package'): continue
            p = Package(e, os.path.dirname(x), rel)
            if len(p.names) != 1: bad.append(('name:' + rel, rel, 'has %d names' % len(p.names)))
            if p.name in pk: bad.append(('twice:' + p.name, rel, 'package %s is described twice (also in %s)' % (p.name, pk[p.name].src)))
            pk[p.name] = p
    return pk, bad


def sources(p):
    """(existing .st files that the package loads, in order; generated names)"""
    out = []
    for f in p.filein:
        if f in p.built: continue
        q = os.path.join(p.base(), f)
        if os.path.exists(q): out.append(q)
    return out


def items(path, ns):
    """Items of a file as loaded with ns as the current namespace."""
    it = stsys.parse(path)
    if isinstance(it, Exception): return it
    if ns == 'Smalltalk': return it
    out = []
    for c in it:
        if isinstance(c, ClassDef) or c.k in ('eval', 'nspragma'):
            c2 = copy.copy(c) if isinstance(c, ClassDef) else Node(c.k, c.line, **c.a)
            o = c.ns if isinstance(c, ClassDef) else c.a.get('ns')
            n = ns if o in ('Smalltalk', None) else o if o == ns or o.startswith(ns + '.') else ns + '.' + o
            if isinstance(c, ClassDef): c2.ns = n; c2.ns0 = o
            else: c2.a = dict(c.a, ns=n)
            out.append(c2)
        else: out.append(c)
    return out
