"""Collects what a check found and writes the evidence, the report and the verdict."""
import os, sys, json, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.viol = []
        self.seen = set()
        self.counts = {}
        self.samples = []
        self.notes = []
        self.rules = []
        self.assumptions = []
        self.known = []
        try:
            for e in json.load(open(KNOWN)):
                if e.get('property') == prop and e.get('status') == 'known':
                    self.known.append(e)
        except FileNotFoundError:
            pass

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 40 and s not in self.samples:
            self.samples.append(s)

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def violation(self, rule, where, func, msg, key=None):
        k = (rule, where, func, key or msg)
        if k in self.seen:
            return
        self.seen.add(k)
        self.viol.append(dict(rule=rule, where=where, func=func, msg=msg, key=key or ''))

    def need(self, k, n):
        """An instance count confirmed by hand: below it the analysis is broken."""
        from facts import CheckError
        if self.counts.get(k, 0) < n:
            raise CheckError('only %d instances of "%s" were analysed, at least %d expected'
                             % (self.counts.get(k, 0), k, n))

    def finish(self):
        out, known = [], []
        for v in self.viol:
            hit = None
            for e in self.known:
                if e['rule'] == v['rule'] and e['func'] == v['func'] and e['key'] == v['key']:
                    hit = e
            (known if hit else out).append(v)
        d = os.path.join(VERIF, 'build', 'reports')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + '.txt')
        with open(path, 'w') as f:
            f.write('property %s, tier %s\n' % (self.prop, self.tier))
            for v in out:
                f.write('VIOLATION rule=%s at %s in %s: %s\n' % (v['rule'], v['where'], v['func'], v['msg']))
            for v in known:
                f.write('known rule=%s at %s in %s: %s\n' % (v['rule'], v['where'], v['func'], v['msg']))
            f.write('rules:\n' + ''.join('  %s\n' % r for r in self.rules))
            f.write('analysed:\n' + ''.join('  %s: %s\n' % kv for kv in sorted(self.counts.items())))
            f.write('notes:\n' + ''.join('  %s\n' % r for r in self.notes))
        wall = time.time() - self.t0
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                  level='other',
                  coverage=dict(
                      explanation='Static analysis of the current source tree; the rules applied and the '
                                  'numbers of constructs they were applied to are listed here.',
                      rules=self.rules, analysed=self.counts, samples=self.samples[:40], notes=self.notes[:60],
                      exhaustive=False),
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(out))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %s (%.1f s)' % (self.prop, ', '.join('%s %s' % (v, k) for k, v in sorted(self.counts.items())), wall))
        for v in known:
            print('KNOWN-FINDING: property=%s %s at %s in %s: %s' % (self.prop, v['rule'], v['where'], v['func'], v['msg']))
        for v in out[:30]:
            print('  %s at %s in %s: %s' % (v['rule'], v['where'], v['func'], v['msg']))
        if out:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        return 0
