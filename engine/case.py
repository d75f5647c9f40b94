"""Harness registration."""
from __future__ import annotations


class Case:
    def __init__(self, name, fn, opts=None, tiers=("quick", "thorough"), bounds=""):
        self.name = name
        self.fn = fn
        self.opts = dict(opts or {})
        self.tiers = tiers
        self.bounds = bounds


class Suite:
    """cases of one property"""

    def __init__(self, prop, bounds=None, outside=None, assumptions=None):
        self.prop = prop
        self.cases = []
        self.bounds = bounds or []
        self.outside = outside or []
        self.assumptions = assumptions or []

    def case(self, name=None, tiers=("quick", "thorough"), bounds="", **opts):
        def deco(fn):
            self.cases.append(Case(name or fn.__name__, fn, opts, tiers, bounds or (fn.__doc__ or "").strip()))
            return fn

        return deco

    def add(self, name, fn, tiers=("quick", "thorough"), bounds="", **opts):
        self.cases.append(Case(name, fn, opts, tiers, bounds or (fn.__doc__ or "").strip()))

    def for_tier(self, tier):
        return [c for c in self.cases if tier in c.tiers]
