#!/usr/bin/env python3
"""S05: packages declare what they need."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, stworld, stnames, stsys, stpkg
from stparse import ClassDef, walk
from cfront import REPO, AnalysisBroken


def configured():
    """[(name, directory)] of the packages that configure enables."""
    t = open(os.path.join(REPO, 'configure.ac'), encoding='latin-1').read()
    t = re.sub(r'(?m)^\s*(?:dnl|#).*$', '', t)
    pre = re.search(r'GST_PACKAGE_PREFIX\(\[?([\w/]+)\]?\)', t)
    pre = pre.group(1) if pre else 'packages'
    return [(a, os.path.join(pre, b)) for a, b in re.findall(r'GST_PACKAGE_ENABLE\(\s*\[([\w-]+)\]\s*,\s*\[([\w/-]+)\]', t)]


def alt(names):
    """Requirements with configure's substitutions made: a list of alternatives."""
    t = open(os.path.join(REPO, 'configure.ac'), encoding='latin-1').read()
    out = [[]]
    for n in names:
        m = re.match(r'@(\w+)@$', n)
        vs = sorted(set(re.findall(r'(?m)^\s*%s=([\w-]+)\s*$' % m.group(1), t))) if m else [n]
        out = [o + [v] for o in out for v in (vs or [n])]
    return out


def closure(p, pk, prov):
    """Packages that must be loaded before p, in load order."""
    out = []; st = set()

    def go(q):
        if q.name in st: return
        st.add(q.name)
        for n in alt(q.prereq)[0]:
            r = prov.get(n)
            if r is not None: go(r)
        out.append(q)
    for n in alt(p.prereq)[0]:
        r = prov.get(n)
        if r is not None: go(r)
    return [q for q in out if q is not p]


def cycles(pk, prov):
    col = {}; bad = []

    def go(q, path):
        col[q.name] = 1
        for n in sorted({x for l in alt(q.prereq) for x in l}):
            r = prov.get(n)
            if r is None: continue
            if col.get(r.name) == 1: bad.append(path[path.index(r.name):] + [r.name] if r.name in path else [q.name, r.name])
            elif r.name not in col: go(r, path + [r.name])
        col[q.name] = 2
    for q in pk.values():
        if q.name not in col: go(q, [q.name])
    return bad


def made(d):
    """Words that the makefile of d mentions (generated files, libraries)."""
    p = os.path.join(d, 'Makefile.am')
    return open(p, encoding='latin-1').read() if os.path.exists(p) else ''


def check(r):
    pk, bad = stpkg.load()
    for k, w, t in bad: r.violation(k, w, t)
    prov = dict(pk)
    for p in pk.values():
        for n in p.provides: prov.setdefault(n, p)
    conf = configured(); r.count('configured_packages', len(conf))
    for n, d in conf:
        q = pk.get(n); ok = q is not None and os.path.relpath(q.dir, REPO) == d
        r.ob(ok)
        if not ok: r.violation('configure:%s' % n, 'configure.ac', 'configure enables the package %s in %s, but %s' % (n, d, 'no package description has that name' if q is None else 'it is described in ' + q.src))
    cn = {n for n, d in conf}
    for p in pk.values():
        if p.src != 'packages.xml' and p.name not in cn: r.notes.append('%s is not configured' % p.src)
    for p in list(pk.values()):
        r.count('packages')
        for q in [p] + p.tests:
            mk = None
            for kind, fs in (('filein', q.filein), ('file', q.file)):
                for f in fs:
                    r.count('files_listed')
                    ok = os.path.exists(os.path.join(p.base(), f)) or f in p.built + q.built
                    r.ob(ok)
                    if not ok: r.violation('file:%s:%s' % (p.name, f), p.src, 'package %s lists %s, which is not in %s' % (p.name, f, stsys.rel(p.base())))
            for n in sorted({x for l in alt(q.prereq) for x in l}):
                r.count('prerequisites'); s = prov.get(n)
                ok = s is not None and not s.disabled
                r.ob(ok)
                if not ok: r.violation('prereq:%s:%s' % (p.name, n), p.src, 'package %s requires %s, which does not exist' % (p.name, n))
            for f in q.built:
                ok = os.path.basename(f) in made(p.base()); r.ob(ok); r.count('built_files')
                if not ok: r.violation('built:%s:%s' % (p.name, f), p.src, 'package %s lists %s as a built file, but no rule makes it' % (p.name, f))
            for n in q.modules:
                ok = (n + '.la') in made(p.base()); r.ob(ok); r.count('modules')
                if not ok: r.violation('module:%s:%s' % (p.name, n), p.src, 'package %s needs the module %s, which its makefile does not build' % (p.name, n))
    for c in cycles(pk, prov):
        r.violation('cycle:%s' % '-'.join(sorted(set(c))), pk[c[0]].src, 'circular requirement: %s' % ' -> '.join(c))
    r.ob(); worlds(r, pk, prov)
    for n, k in (('packages', 70), ('files_listed', 1000), ('prerequisites', 60), ('class_definitions', 2500), ('package_methods', 20000), ('configured_packages', 60)): r.require(n, k)
    r.rules = ['every file that a package lists exists, is built by its makefile, and every file it loads parses',
               'every requirement is a package or something one provides; requirements have no cycles; configured names match the descriptions',
               'a superclass or an extended class is defined by the base system, the requirements or earlier in the load order of the package',
               'a class of another package that a method names is defined by the base system, the package or its requirements',
               'the modules a package needs are built by its makefile; the test classes it names are defined']


def worlds(r, pk, prov):
    base = stsys.kernel_files()
    boot = stnames.boot_globals()
    everywhere = set()             # names of the classes that packages define
    for q in pk.values():
        for x in [q] + q.tests:
            for f in stpkg.sources(x):
                it = stsys.parse(f)
                if isinstance(it, list): everywhere |= {w0.split('.')[-1] for w0 in (c.name for c in it if isinstance(c, ClassDef) and c.kind == 'subclass')}
    r.count('package_classes', len(everywhere))
    # what the base system defines, only for packages that do not change it is the world shared
    for p in pk.values():
        if p.disabled: continue
        order = closure(p, pk, prov)
        if not (p.filein or p.tests or p.start or p.stop): continue
        w = stworld.World(); w.add_files(base)
        gens = {q.ns for q in order + [p] if q.built}
        for q in order: load(w, q, None)
        load(w, p, r, gens)
        use(r, w, p, p, boot, gens, everywhere)
        for t in p.tests:
            for n in t.prereq + (['SUnit'] if p.name != 'SUnit' else []):
                s = prov.get(n)
                if s is None: continue
                for q in closure(s, pk, prov) + [s]:
                    if q not in order and q is not p: order.append(q); load(w, q, None); gens |= {q.ns} if q.built else set()
            load(w, t, r, gens)
            use(r, w, t, p, boot, gens, everywhere)
            for c in t.sunit:
                r.count('test_classes')
                c = c.rstrip('*')
                ok = w.find(c, t.ns) is not None or t.ns in gens
                r.ob(ok)
                if not ok: r.violation('sunit:%s:%s' % (p.name, c), p.src, 'package %s names the test class %s, which it does not define' % (p.name, c))


def named(w, n, c):
    """The class (or namespace) that n names for the definition c; every component
    of a dotted name is also looked up in the namespaces around it."""
    b = w.find(n, c.ns)
    if b is not None: return b
    rs = stnames.Resolver.__new__(stnames.Resolver); rs.w = w; rs.globals = set(); rs.nsvars = {}
    b = rs.outer(w.strip(n), None, c.ns)
    if b and b[0] == 'class': return b[1]
    if b and b[0] == 'ns' and c.kind != 'subclass': return b
    for im in c.imports:
        b = w.find(n, w.strip(im))
        if b is not None: return b
    return None


def load(w, q, r, gens=()):
    """Add the classes of package q; with r, check the order of definitions."""
    w.namespaces.add(q.ns)
    parts = q.ns.split('.')
    for k in range(1, len(parts)): w.namespaces.add('.'.join(parts[:k]))
    for f in stpkg.sources(q):
        it = stpkg.items(f, q.ns)
        if isinstance(it, Exception):
            if r is not None: r.violation('parse:%s' % stsys.rel(f), stsys.rel(f), 'package %s loads a file that does not parse: %s' % (q.name, str(it).split(': ', 1)[-1]))
            continue
        w.files_parsed.append(f)
        if r is not None: r.count('files_loaded')
        for c in it:
            if not isinstance(c, ClassDef): continue
            r0 = c.sup if c.kind == 'subclass' else c.name
            ok = r0 in (None, 'nil') or named(w, r0, c) is not None
            w.add_items([(f, [c])])
            if r is not None:
                r.count('class_definitions')
                ok = ok or bool(q.built) or any(w.strip(r0).startswith(g + '.') or c.ns == g for g in gens)
                r.ob(ok)
                if not ok:
                    r.violation('class:%s:%s' % (stsys.rel(f), r0), '%s:%d' % (stsys.rel(f), c.line),
                                'package %s: the class %s that is %s is not defined by the base system, by the packages it requires, or earlier in the package'
                                % (q.name, r0, 'the superclass of ' + c.name if c.kind == 'subclass' else 'extended'))


def use(r, w, q, p, boot, gens, everywhere):
    """Every name that the package's methods use is a variable somewhere."""
    own = set(stpkg.sources(q))
    here = {c.name for c in w.classes.values()} | {n.split('.')[-1] for n in w.namespaces}
    rs = stnames.Resolver(w, boot)
    for c in list(w.classes.values()):
        for m in list(c.methods.values()) + list(c.cmethods.values()):
            if m.file not in own: continue
            r.count('package_methods')
            mname = '%s%s>>%s' % (c.full, ' class' if m.meta else '', m.sel)
            for nd, nm, b, asg in rs.method(m, c, m.dns):
                r.count('variable_uses')
                ok = b is not None or nm.split('.')[-1] not in everywhere or nm.split('.')[-1] in here or any(w.strip(nm).startswith(g + '.') or m.dns == g or c.ns == g for g in gens)
                r.ob(ok)
                if not ok:
                    r.violation('name:%s:%s:%s' % (q.name, mname, nm), '%s:%d' % (stsys.rel(m.file), nd.line),
                                'package %s: %s uses the class %s, which another package defines, but neither the base system, nor the package or its requirements' % (q.name, mname, nm))


if __name__ == '__main__':
    vp.main('S05', check, level='proof', explanation='every package description is parsed and closed over files, requirements, modules and class definitions in load order',
            trusted='the Smalltalk parser in /verif/lib and the XML parser of Python')
