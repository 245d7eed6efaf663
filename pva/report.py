"""Obligations, verdicts and evidence."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOLDS, FAILS, OPEN = 'holds', 'violated', 'undecided'


class Report:
    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obs = []
        self.units = []
        self.rules = {}
        self.functions = set()
        self.loops = set()
        self.notes = []
        self.assumptions = []

    def rule(self, name, text):
        self.rules[name] = text

    def unit(self, name, I=None):
        self.units.append(name)
        if I is not None:
            self.functions |= {'%s.%s' % f for f in I.visited if '__pva' not in f[0]}
            self.loops |= {i.loc for i in I.loops.values()}
            for n in I.notes:
                if n not in self.notes:
                    self.notes.append(n)

    def ob(self, rule, site, verdict, detail='', unit=None):
        """verdict: True / False / None (undecided)"""
        v = HOLDS if verdict is True else FAILS if verdict is False else OPEN
        self.obs.append(dict(rule=rule, site=str(site), verdict=v, detail=str(detail)[:1500],
                             unit=unit or (self.units[-1] if self.units else '')))
        return verdict

    def guard(self, rule, site, f, unit=None):
        """run an obligation builder; anything the analysis cannot follow leaves the obligation open"""
        try:
            return f()
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob(rule, site, None, 'analysis gap: %s: %s (%s:%d)' % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), unit)
            if os.environ.get('PVA_DEBUG'):
                traceback.print_exc()
            return None

    def count(self, v):
        return sum(1 for o in self.obs if o['verdict'] == v)

    def known(self):
        path = os.path.join(VERIF, 'known-findings.txt')
        out = []
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith('known: property=%s ' % self.prop):
                    out.append(line.split(' ', 2)[2])
        return out

    def finish(self):
        bad = [o for o in self.obs if o['verdict'] == FAILS]
        known = self.known()
        real = []
        for o in bad:
            k = next((k for k in known if k.split(' :: ')[0] == o['rule'] + ' @ ' + o['site']), None)
            if k is not None:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
            else:
                real.append(o)
        done = self.count(HOLDS)
        evdir = os.environ.get('PVA_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        rp = os.path.join('evidence', 'replay-%s.json' % self.prop)
        samples = []
        seen = set()
        for o in self.obs:
            if o['rule'] not in seen or o['verdict'] != HOLDS:
                seen.add(o['rule'])
                samples.append(o)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(
                      explanation='static analysis of the sources under /repo/pocomc: %d obligations from %d rules over %d '
                                  'analysed units; %d hold, %d violated, %d left open' % (
                                      len(self.obs), len({o['rule'] for o in self.obs}), len(self.units), done, len(bad),
                                      self.count(OPEN)),
                      obligations=len(self.obs), discharged=done, undecided=self.count(OPEN),
                      rules={k: v for k, v in self.rules.items()},
                      units=self.units, functions=sorted(self.functions), loops=sorted(self.loops),
                      constructs_not_followed=self.notes, samples=samples[:60]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(real))
        with open(os.path.join(evdir, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d hold, %d violated, %d open (%.1f s)' % (
            self.prop, len(self.obs), done, len(bad), self.count(OPEN), time.time() - self.t0))
        for o in self.obs:
            if o['verdict'] == OPEN:
                print('  open: %s at %s [%s]: %s' % (o['rule'], o['site'], o['unit'], o['detail'][:300]))
        if real:
            with open(os.path.join(evdir, 'replay-%s.json' % self.prop), 'w') as f:
                json.dump(dict(property=self.prop, violations=real, rules=self.rules), f, indent=1)
            for o in real[:20]:
                print('  violated: %s at %s [%s]: %s' % (o['rule'], o['site'], o['unit'], o['detail'][:700]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if not done:
            print('no obligation could be decided')
            return 2
        return 0


class Only:
    """a view of a report that keeps the obligations of some rules"""

    def __init__(self, R, *rules):
        self.R, self.keep = R, rules

    def ob(self, rule, site, verdict, detail='', unit=None):
        if rule in self.keep:
            return self.R.ob(rule, site, verdict, detail, unit)
        return verdict

    def guard(self, rule, site, f, unit=None):
        return self.R.guard(rule, site, f, unit)

    def __getattr__(self, n):
        return getattr(self.R, n)
