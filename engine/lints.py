"""Structural rules over the resolved program (call sites, records, effects)."""
from names import strip


class LintResult(object):
    def __init__(self, name):
        self.name = name
        self.instances = 0
        self.violations = []
        self.functions = set()
        self.samples = []
