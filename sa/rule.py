"""Common plumbing for rules: results, floors, evidence, known findings, exit codes."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.violations = {}   # key -> dict
        self.counts = {}
        self.samples = []
        self.notes = []
        self.rules = []
        self.obligations = 0
        self.discharged = 0

    def rule(self, text):
        self.rules.append(text)

    def violation(self, key, msg, where="", path=None):
        if key not in self.violations:
            self.violations[key] = {"key": key, "msg": msg, "where": where, "path": path or []}

    def merge_engine(self, eng, label=""):
        for k, v in eng.violations.items():
            self.violation(k, v["msg"], v["where"], v["path"])
        self.count("functions_analysed" + label, len(eng.n_funcs))
        self.count("abstract_states" + label, eng.n_states)
        self.count("call_sites" + label, len(eng.call_sites_seen))
        if eng.recursion_hits:
            self.count("recursion_cuts" + label, eng.recursion_hits)
        if eng.merged:
            self.count("widened_states" + label, eng.merged)

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, least, what):
        """fail closed when fewer instances than confirmed by reading are found"""
        self.counts[name] = n
        if n < least:
            self.violation("floor:" + name, "expected at least %d %s, found %d: the rule's anchor is gone" % (least, what, n))

    def oblige(self, ok, key, msg, where="", path=None):
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.violation(key, msg, where, path)
        return ok

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)


def load_known():
    """known_findings.txt: 'known: property=<id> key=<key> :: text' / 'fixed: property=...'"""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                head, _, text = line[7:].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 1) if "=" in x)
                r[(d["property"], d["key"].strip())] = text
    return r
