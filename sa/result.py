"""What one check run produces, and how it is written down."""

import json
import os
import time


class Anchor(Exception):
    """Something the rule is about is no longer in the source."""


class Result:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.violations = []
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.explanation = ''
        self.samples = {}
        self.t0 = time.time()

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, key, text, limit=60):
        l = self.samples.setdefault(key, [])
        if len(l) < limit and text not in l:
            l.append(text)

    def violate(self, rule, where, construct, message, path=()):
        k = (rule, where, construct)
        for v in self.violations:
            if (v['rule'], v['where'], v['construct']) == k:
                return
        self.violations.append({'rule': rule, 'where': where, 'construct': construct,
                                'message': message, 'path': list(path)})

    def absorb(self, eng):
        """Take reports and coverage counters from an engine run."""
        for r in eng.reports.values():
            self.violate(r['rule'], r['where'], r['construct'], r['message'], r['path'])
        self.count('functions_analysed', len(eng.functions))
        self.count('call_sites', len(eng.callsites))
        self.count('branch_splits', eng.branches)
        self.count('abstract_steps', eng.steps)
        self.count('joins', eng.joins)
        if eng.suspects:
            self.count('undecided', eng.suspects)
        if eng.incomplete:
            self.count('incomplete_entry_points', len(eng.incomplete))
            for t in eng.incomplete:
                self.sample('incomplete', t)
        for f in sorted(eng.functions):
            self.sample('functions', f.split(':', 1)[1])

    def need(self, key, n, what):
        """A rule that matched fewer constructs than it must is not believed."""
        if self.counts.get(key, 0) < n and not self.counts.get('incomplete_entry_points'):
            raise Anchor("%s: only %d of at least %d %s found" % (self.prop, self.counts.get(key, 0), n, what))
