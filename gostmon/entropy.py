"""Interposer on the operating system's entropy source.

Installed before the package is imported, so it sees every route a Python package has to the
source: os.urandom, os.getrandom, secrets.* and random.SystemRandom.  Inactive, it passes through."""

import os
import random

_real = os.urandom


class Source:
    """Record of, and control over, what the source hands out."""

    def __init__(self):
        self.active = None       # None, or a function n -> bytes
        self.log = []            # every block handed out while active

    def take(self, n, *_flags):
        if self.active is None:
            return _real(n)
        data = bytes(self.active(n))
        assert len(data) == n
        self.log.append(data)
        return data

    def feed(self, fn):
        self.active, self.log = fn, []

    def stop(self):
        log, self.active, self.log = self.log, None, []
        return log


SOURCE = Source()


def install():
    os.urandom = SOURCE.take
    if hasattr(os, 'getrandom'):
        os.getrandom = SOURCE.take
    random._urandom = SOURCE.take


def scripted(blocks, rng):
    """Hands out the given blocks where their size fits the request, random octets afterwards."""
    todo = list(blocks)

    def fn(n):
        if todo and len(todo[0]) == n:
            return todo.pop(0)
        return rng.randbytes(n)
    return fn
