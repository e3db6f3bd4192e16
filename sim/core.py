"""Shared definitions: violations, recorder, scenario seeding. No jax here."""

import hashlib
import json
import os
import random
import traceback

REPO = '/repo'
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get('BARTZ_SIM_SRC', '/repo/src')  # override: development only


class Violation(Exception):
    """The system under test broke the property."""

    def __init__(self, kind, detail=''):
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = str(detail)


class Skip(Exception):
    """The scenario is outside of the property (e.g. after shrinking)."""


def scenario_rng(seed, prop, index):
    """One integer decides everything: the whole scenario is drawn from this."""
    return random.Random(f'bartz-sim/{seed}/{prop}/{index}')


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]


class Recorder:
    """What a run covered. Never draws random numbers nor reads clocks."""

    def __init__(self):
        self.counts = {}
        self.faults = {}
        self.prints = set()
        self.hash = hashlib.sha256()
        self.steps = 0
        self.sample = None

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + int(k)

    def fault(self, name, k=1):
        self.faults[name] = self.faults.get(name, 0) + int(k)

    def step(self, k=1):
        self.steps += int(k)

    def seen(self, *key):
        """Fingerprint of a distinct state/interleaving/history."""
        h = hashlib.blake2b(digest_size=8)
        for k in key:
            h.update(k if isinstance(k, bytes) else repr(k).encode())
            h.update(b'|')
        self.prints.add(h.hexdigest())

    def log(self, *key):
        for k in key:
            self.hash.update(k if isinstance(k, bytes) else repr(k).encode())
            self.hash.update(b'|')

    def result(self):
        return dict(
            counts=self.counts, faults=self.faults, prints=sorted(self.prints),
            steps=self.steps, digest=self.hash.hexdigest()[:16], sample=self.sample,
        )


def sut_exception(exc):
    """Does the traceback pass through the library (or its compiled code)?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        ours = None
        for frame in traceback.extract_tb(exc.__traceback__):
            if frame.filename.startswith(SRC):
                ours = True
            elif frame.filename.startswith(HERE):
                ours = False  # e.g. a stub called by the library
        if ours:
            return True
        if type(exc).__name__ == 'XlaRuntimeError':
            return True
        exc = exc.__cause__ or exc.__context__
    return False
