"""Obligations, violations and evidence of one property on one program."""
import json, os, sys, time, traceback
from facts import AnalysisBroken, VERIF
import engine as E


class Ctx:
    def __init__(self, prop, tier, prog):
        self.prop, self.tier, self.p = prop, tier, prog
        self.obs = {}               # rule text -> count
        self.viol = {}              # key -> dict
        self.fns, self.sites = set(), set()
        self.steps = self.paths = self.forks = self.runs = 0
        self.samples = []
        self._roles = None
        self._later = []

    @property
    def roles(self):
        if self._roles is None:
            from roles import Roles
            self._roles = Roles(self.p)
        return self._roles

    def run(self, fn, rule, this=None, args=None, ts=None, setup=None, max_steps=400000, engine=None):
        eng = E.Engine(self.p, rule, max_steps)
        if engine is not None:
            engine.append(eng)
            self._later.append((eng.fns_seen, eng.call_sites))
        outs = eng.run(fn, this=this, args=args, ts=ts, setup=setup)
        self.steps += eng.steps
        self.paths += len(outs)
        self.forks += eng.forks
        self.runs += 1
        self.fns |= {self.p.fns[i]['q'] for i in eng.fns_seen if i in self.p.fns}
        self.sites |= eng.call_sites
        return outs

    def settle(self):
        """what the engines that were used on after their first run have seen"""
        for fs, sites in self._later:
            self.fns |= {self.p.fns[i]['q'] for i in fs if i in self.p.fns}
            self.sites |= sites
        self._later = []

    def ob(self, rule, n=1):
        self.obs[rule] = self.obs.get(rule, 0) + n

    def seen(self, *fns):
        for f in fns:
            self.fns.add(f['q'])

    def sample(self, txt):
        if len(self.samples) < 12 and txt not in self.samples:
            self.samples.append(txt)

    def check(self, ok, rule, key, msg, loc='', path=None):
        """One obligation of `rule`; key identifies the violated instance."""
        self.ob(rule)
        if not ok:
            self.fail(rule, key, msg, loc, path)
        return bool(ok)

    def fail(self, rule, key, msg, loc='', path=None):
        k = '%s|%s' % (rule, key)
        if k not in self.viol:
            self.viol[k] = {'rule': rule, 'key': key, 'message': msg, 'where': loc,
                            'path': path or [], 'program': self.p.name}

    def floor(self, what, n, least):
        """An instance count that must not silently drop: analysis-broken below."""
        if n < least:
            raise AnalysisBroken("%s: only %d instances of '%s' (expected at least %d)"
                                 % (self.prop, n, what, least))

    def result(self):
        self.settle()
        return {'program': self.p.name, 'units': len(self.p.units), 'functions_total': len(self.p.fns),
                'functions': sorted(self.fns), 'call_sites': len(self.sites),
                'steps': self.steps, 'paths': self.paths, 'forks': self.forks, 'explorations': self.runs,
                'obligations': dict(self.obs), 'violations': list(self.viol.values()),
                'samples': self.samples}
