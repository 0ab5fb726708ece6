"""Shared vocabulary of the checks: parts, violations, case bookkeeping."""
import json, hashlib, os


class Violation(Exception):
    """The code under test broke the property. `key` identifies a root cause for known findings."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The generated case is outside the property's domain (counted, never a pass)."""


class CaseTimeout(BaseException):
    pass


class Info:
    __slots__ = ("nontrivial", "tags")

    def __init__(self, nontrivial=True, tags=()):
        self.nontrivial = bool(nontrivial)
        self.tags = list(tags)


class Part:
    """One generated search: `strategy` draws JSON cases, `check(case)` decides one case.

    quick/thorough: total number of cases over all shards."""
    def __init__(self, name, strategy, check, quick, thorough, engine="py", shrink=True, examples=()):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.engine, self.shrink = quick, thorough, engine, shrink
        self.examples = list(examples)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(case):
    return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


def derive_seed(*parts):
    return int(hashlib.sha256("/".join(map(str, parts)).encode()).hexdigest()[:12], 16)


def fail(msg, key=None):
    raise Violation(msg, key)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
