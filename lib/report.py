"""Collects what a check analysed and what it found."""
import json
import os
import time

from .facts import VERIF, Broken


class Report:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.groups = {}
        self.violations = []
        self._seen = set()
        self.rules = []
        self.assumptions = []
        self.extra = {}

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def ok(self, group, what=None, n=1):
        """n obligations of a group were checked and hold."""
        self.obligations += n
        self.discharged += n
        g = self.groups.setdefault(group, {"checked": 0, "violated": 0})
        g["checked"] += n
        if what is not None and len([s for s in self.samples if s["group"] == group]) < 4:
            self.samples.append({"group": group, "what": what})

    def bad(self, group, key, where, msg):
        """An obligation is violated. key identifies the instance independent
        of line numbers."""
        if (key, msg) in self._seen:
            return
        self._seen.add((key, msg))
        self.obligations += 1
        g = self.groups.setdefault(group, {"checked": 0, "violated": 0})
        g["checked"] += 1
        g["violated"] += 1
        self.violations.append({"group": group, "key": key, "where": where, "msg": msg})

    def expect(self, cond, msg):
        if not cond:
            raise Broken("analysis of %s found nothing to decide on: %s" % (self.pid, msg))

    def at_least(self, group, n):
        got = self.groups.get(group, {"checked": 0})["checked"]
        if got < n:
            raise Broken("%s: only %d instances of '%s' found (at least %d expected)" % (self.pid, got, group, n))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]
