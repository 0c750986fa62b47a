"""Reporting shared by all checks: violations, known findings, evidence."""
import json
import os
import sys
import time

import facts

VERIF = facts.VERIF


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.viol = {}           # key -> dict
        self.counts = {}
        self.samples = []
        self.rules = []
        self.notes = []
        self.assumptions = []
        self.fns = set()
        self.complete = False    # did the last proof settle everything?
        self.stated = set()      # laws
        self.settled = set()     # laws decided on every path

    # -- used by rules
    def rule(self, text):
        """the rule(s) this check applies, for the evidence file"""
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 25:
            self.samples.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def violate(self, rule, key, where, msg, **more):
        """key: stable identification (no line numbers) of the failing construct"""
        k = rule + ':' + key
        if k not in self.viol:
            v = {'rule': rule, 'key': k, 'where': where, 'message': msg}
            v.update(more)
            self.viol[k] = v

    def need(self, cond, what):
        """an anchor of the analysis is gone: no verdict"""
        if not cond:
            raise facts.AnalysisBroken(what)

    def at_least(self, name, n):
        if self.counts.get(name, 0) < n:
            raise facts.AnalysisBroken('only %d %s were found (at least %d were confirmed by hand)'
                                       % (self.counts.get(name, 0), name, n))

    # -- end of the run
    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return {}
        d = json.load(open(p))
        return {f['key']: f for f in d.get('findings', []) if f['property'] == self.pid}

    def finish(self):
        known = self.known()
        new = {k: v for k, v in self.viol.items() if k not in known}
        old = {k: v for k, v in self.viol.items() if k in known}
        for k, v in sorted(old.items()):
            print('KNOWN-FINDING: property=%s %s [%s] %s' % (self.pid, known[k]['what'], k, v['where']))
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        cov = {'explanation': ' '.join(self.rules), 'analysed': self.counts,
               'functions_analysed': len(self.fns), 'samples': self.samples}
        if self.notes:
            cov['notes'] = self.notes
        d = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
             'level': 'other', 'coverage': cov, 'assumptions': self.assumptions,
             'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        if old:
            d['coverage']['known_findings'] = sorted(old)
        tmp = os.path.join(ev, self.pid + '.json')
        with open(tmp, 'w') as f:
            json.dump(d, f, indent=1)
        print('%s: %s' % (self.pid, ', '.join('%d %s' % (n, c) for c, n in sorted(self.counts.items()))))
        if not new:
            print('%s: held (%.1f s)' % (self.pid, time.time() - self.t0))
            return 0
        rp = os.path.join(ev, self.pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(sorted(new.values(), key=lambda v: v['key']), f, indent=1)
        for k, v in sorted(new.items()):
            print('%s: %s\n    [%s]' % (v['where'], v['message'], k))
        print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        return 1
