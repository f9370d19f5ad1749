"""The Smalltalk half: class model of kernel/*.st (and packages)."""
import glob, os, sys
from cfront import REPO, AnalysisBroken
import stparse
from stparse import ClassDef, Method, Node, walk, sends

_parsed = {}


def parse(path):
    if path not in _parsed:
        try:
            _parsed[path] = stparse.parse_file(path)
        except (stparse.ParseError, IndexError, ValueError, RecursionError) as e:
            _parsed[path] = e
    return _parsed[path]


def kernel_files():
    fs = sorted(glob.glob(os.path.join(REPO, 'kernel', '*.st')))
    if len(fs) < 100:
        raise AnalysisBroken('only %d kernel files' % len(fs))
    return fs


def package_files(sub='packages'):
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, sub)):
        out += [os.path.join(d, f) for f in fs if f.endswith('.st')]
    return sorted(out)


def methods_of(files, must_parse=True):
    for f in files:
        it = parse(f)
        if isinstance(it, Exception):
            if must_parse:
                raise AnalysisBroken('cannot parse %s: %s' % (f, it))
            continue
        for c in it:
            if isinstance(c, ClassDef):
                for m in c.methods:
                    yield c, m


def rel(path):
    return os.path.relpath(path, REPO)


def primitive_attachments():
    """[(prim, nargs, class, method)] for every <primitive:> in kernel and packages."""
    out = []
    for fs, must in ((kernel_files(), True), (package_files(), False)):
        for c, m in methods_of(fs, must):
            p = m.primitive
            if p is not None:
                v = p.name.split('.')[-1] if p.k == 'var' else p.value if p.k == 'num' else None
                out.append((v, len(m.args), c, m))
    if len(out) < 300:
        raise AnalysisBroken('only %d primitive attachments found' % len(out))
    return out
