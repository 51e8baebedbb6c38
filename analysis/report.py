"""Collects obligations, verdicts and counts of one check and writes the evidence."""
import json, os, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obl = []            # (key, verdict, detail)
        self.counts = {}
        self.floors = []
        self.rules = []
        self.assume = []
        self.analysed = set()
        self.errors = []

    # verdicts
    def proved(self, key, detail=''):
        self.obl.append((key, 'holds', detail))

    def violated(self, key, detail, at=''):
        self.obl.append((key, 'violated', detail + ((' [' + at + ']') if at else '')))

    def undecided(self, key, detail):
        self.obl.append((key, 'undecided', detail))

    def expect(self, key, ok, detail, at=''):
        if ok:
            self.proved(key)
        else:
            self.violated(key, detail, at)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def rule(self, text):
        self.rules.append(text)

    def saw(self, body):
        self.analysed.add(body)

    def floor(self, name, minimum):
        """an instance count below what was confirmed by hand means that the rule may have lost its object: not all was decided"""
        self.floors.append((name, minimum, self.counts.get(name, 0)))

    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return []
        j = json.load(open(p))
        return [k for k in j.get('findings', []) if k['property'] == self.prop]

    def finish(self):
        known = {k['key']: k for k in self.known()}
        viol, kn = [], []
        seen = set()
        for key, v, d in self.obl:
            if v == 'violated':
                if key in known:
                    kn.append((key, d))
                elif key not in seen:
                    seen.add(key)
                    viol.append((key, d))
        for name, mn, got in self.floors:
            if got < mn:
                # written differently or not interpreted: neither is a violation
                self.obl.append(('floor:' + name, 'undecided', '%d analysed, %d on the tree the rule was written for' % (got, mn)))
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': ' '.join(self.rules),
                'obligations': len(self.obl),
                'discharged': sum(1 for o in self.obl if o[1] == 'holds'),
                'undecided': ['%s: %s' % (k, d) for k, v, d in self.obl if v == 'undecided'][:40],
                'counts': self.counts,
                'functions_analysed': len(self.analysed),
                'functions': sorted(self.analysed)[:400],
                'samples': ['%s: %s%s' % (k, v, (' - ' + str(d)[:200]) if d else '') for k, v, d in self.obl][:60],
                'floors': ['%s >= %d (got %d)' % f for f in self.floors],
            },
            'assumptions': self.assume,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(viol),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        tmp = '%s.%d.tmp' % (p, os.getpid())
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, p)
        for k, d in kn:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, known[k].get('what', k)))
        if viol:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violation.txt')
            with open(rp, 'w') as f:
                for k, d in viol:
                    f.write('%s\n  %s\n' % (k, d))
            for k, d in viol:
                print('%s: %s' % (k, d[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(rp, VERIF)))
            return 1
        und = [o for o in self.obl if o[1] == 'undecided']
        print('%s: %d obligations, %d hold, %d undecided, %d functions, %.1fs' % (
            self.prop, len(self.obl), sum(1 for o in self.obl if o[1] == 'holds'), len(und), len(self.analysed), time.time() - self.t0))
        for k, v, d in und[:20]:
            print('  undecided %s: %s' % (k, str(d)[:300]))
        return 0
