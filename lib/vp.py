"""Common runner of the checks: verdicts, evidence, known findings."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cfront import AnalysisBroken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop):
        self.prop = prop; self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.violations = {}      # key -> text
        self.cov = {}; self.rules = []; self.notes = []; self.obligations = 0; self.discharged = 0
        self.samples = []

    def violation(self, key, where, text):
        """key: stable identity (no line numbers); where: file:line"""
        if key not in self.violations:
            self.violations[key] = (where, text)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def ob(self, ok=True, n=1):
        self.obligations += n
        if ok: self.discharged += n

    def require(self, name, minimum):
        """Instance count must not fall below the confirmed number."""
        if self.cov.get(name, 0) < minimum:
            raise AnalysisBroken('%s: %d instances, at least %d expected (anchor vanished?)'
                                 % (name, self.cov.get(name, 0), minimum))


def known_findings(prop):
    """{key: text} of the open known findings of prop."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property=%s ' % prop):
                body = l.split(' ', 2)[2]
                key, _, text = body.partition(' :: ')
                out[key.strip()] = text.strip()
    return out


def main(prop, fn, level='proof', explanation='', trusted='clang 18 front end, the IR dump and the analysis in /verif/lib', checker=None):
    tier = 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    r = Report(prop); r.tier = tier
    code = 0
    try:
        fn(r)
        known = known_findings(prop)
        new = {}
        for k, (w, t) in sorted(r.violations.items()):
            if k in known:
                print('KNOWN-FINDING: property=%s %s -- %s' % (prop, k, known[k]))
            else:
                new[k] = (w, t)
        rp = os.path.join(VERIF, 'evidence', prop + '.replay.txt')
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        if new:
            with open(rp, 'w') as f:
                for k, (w, t) in new.items():
                    f.write('%s: %s\n    instance: %s\n' % (w, t, k))
            for k, (w, t) in list(new.items())[:40]:
                print('%s: %s [%s]' % (w, t, k))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            code = 1
        else:
            try: os.unlink(rp)
            except OSError: pass
        cov = dict(r.cov)
        cov['rules'] = r.rules
        cov['obligations'] = r.obligations
        cov['discharged'] = r.discharged
        if r.samples: cov['samples'] = r.samples[:40]
        cov['explanation'] = explanation
        if level == 'proof':
            cov['checker_cmd'] = checker or ('python3 /verif/checks/%s.py' % prop)
            cov['trusted_base'] = trusted if isinstance(trusted, list) else [trusted]
        cov['known_findings'] = sorted(k for k in r.violations if k in known)
        cov['violations'] = sorted(new)
        ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level,
                  coverage=cov, wall_s=round(time.time() - r.t0, 2))
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, sort_keys=True)
        print('%s: %s; %s (%.1fs)' % (prop, 'violated' if code else 'holds on everything analysed',
              ', '.join('%s=%s' % (k, v) for k, v in sorted(r.cov.items()) if isinstance(v, int)), time.time() - r.t0))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e)); code = 3
    except Exception:
        traceback.print_exc(); code = 4
    sys.exit(code)
